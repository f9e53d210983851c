// C25: the program writes the results of the run, completely and faithfully.
#include "tally.hpp"

#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

namespace mon {
const char* const kRule =
    "one evaluation is one number, name or list of boundaries written by the "
    "program compared with the declaration, with the run of the same input in "
    "this process and with the histories recorded there, or one run of the "
    "program judged by its exit code and the files it leaves; distinct "
    "non-trivial ones are numbers other than zero and unsuccessful runs";

namespace {
namespace fs = std::filesystem;
std::string Slurp(const fs::path& p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void Spill(const fs::path& p, const std::string& s) {
  std::ofstream f(p, std::ios::binary);
  f << s;
}
int Program(const std::vector<std::string>& args, const fs::path& cwd, std::string* out, double limit = 120,
            bool mute = false) {
  const char* exe = getenv("MINIMC_PROGRAM");
  return Forked([&] {
    std::vector<char*> a{const_cast<char*>(exe)};
    for (auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
    a.push_back(nullptr);
    if (chdir(cwd.c_str())) return 95;
    if (mute) { // what it says on the way cannot be written
      const int full = open("/dev/full", O_WRONLY);
      if (full < 0 || dup2(full, 1) < 0) return 97;
    }
    execv(exe, a.data());
    return 96;
  }, out, limit);
}
std::set<std::string> Files(const fs::path& d) {
  std::set<std::string> s;
  for (auto& e : fs::recursive_directory_iterator(d)) s.insert(e.path().string());
  return s;
}
std::map<std::string, uint64_t> Contents(const fs::path& d) {
  std::map<std::string, uint64_t> m;
  for (auto& f : Files(d))
    if (fs::is_regular_file(f)) m[f] = Hash(Slurp(f));
  return m;
}
// printed to six digits after the point
bool Same(const std::string& printed, double v, double abs = 0) {
  double x;
  return ParseNumber(printed, x) && std::abs(x - v) <= 6e-7 * std::abs(v) + abs;
}
std::string Boundaries(const std::vector<std::string>& got, const BinsCfg& b) {
  if (b.kind == BinsCfg::None) {
    if (got.size() == 1 && got[0] == "none") return {};
    return fmt("%zu entries for no bins", got.size());
  }
  const auto x = b.Boundaries();
  if (got.size() != x.size()) return fmt("%zu boundaries printed of %zu", got.size(), x.size());
  double w = 0;
  for (double y : x) w = std::max(w, std::abs(y));
  for (size_t i = 0; i < x.size(); i++)
    if (!Same(got[i], x[i], b.kind == BinsCfg::Lin ? 1e-13 * w : 0))
      return fmt("boundary %zu printed as %s, declared %.9g", i, got[i].c_str(), x[i]);
  return {};
}

Config Problem(Rng& r, Ctx& ctx, int kind) {
  GenOpt o;
  o.sensitivities = B(r);
  o.photon = B(r, 0.2);
  o.max_surfaces = 5;
  o.tsl = kind == 2;
  o.names = false; // chosen below
  if (o.tsl) o.max_surfaces = 3;
  Config c = kind ? GenCE(r, o) : GenMG(r, o);
  c.histories = I(r, 1, 120);
  c.threads = B(r, 0.6) ? 1 : I(r, 1, 8);
  if (B(r, 0.1)) {
    c.estimators.clear();
    c.perturbations.clear();
  }
  // names of all kinds
  const std::vector<std::string> names{"current through the wall", "J+", "1", "flux é", "a::b", "x.y-z_0",
                                       "a rather long name of an estimator, with a comma"};
  for (size_t i = 0; i < c.estimators.size(); i++) {
    auto& e = c.estimators[i];
    if (B(r, 0.3)) e.name = names[I(r, 0, (int)names.size() - 1)] + " " + std::to_string(i);
    if (e.name.find("::") != std::string::npos) e.sensitivities.clear();
    std::shuffle(e.sensitivities.begin(), e.sensitivities.end(), r);
  }
  std::shuffle(c.estimators.begin(), c.estimators.end(), r);
  return c;
}

void Faithful(Ctx& ctx, Case& k, int kind) {
  Rng& r = k.rng;
  Config c = Problem(r, ctx, kind);
  const bool many = !kind && B(r, 0.03); // progress is shown
  if (many) c.histories = I(r, 10000, 13000);
  fs::path dir;
  ScratchDir(k, dir);
  const int cell = RefFindCell(c, c.src);
  if (cell < 0 || c.cells[cell].is_void) return;
  const std::vector<std::string> data{"p", "p", "p", "d a", "x%41", "é", "p#1", "a&b", "a'b", "x;y", "1", "日本"};
  const auto written = WriteProblem(c, dir, Pick(r, data));
  // the name of the input
  const std::vector<std::string> stems{"input", "a b", "case.1", "UPPER", "x-y_z", "in.xml",
                                       "é", "%", "a%41", "a#b", "-x", " a", "a&b", "日本", "a\\b", "x:y"};
  const std::string stem = stems[I(r, 0, (int)stems.size() - 1)];
  const std::string ext = B(r, 0.9) ? ".xml" : B(r) ? ".inp" : ".XML";
  fs::path sub = dir;
  if (B(r, 0.3)) {
    sub = dir / Pick(r, std::vector<std::string>{"sub.dir", "a b", "%41", "a#b", "é", "file:", "x.out"});
    fs::create_directory(sub);
    WriteSchemas(sub);
  }
  const auto in = sub / (stem + ext);
  const auto out = sub / (stem + ".out");
  Spill(in, Slurp(written));
  const bool relative = B(r, 0.5);
  const bool old = B(r, 0.3);
  if (old) Spill(out, std::string(30000, 'z') + "\nold results\n");
  const auto before = Files(dir);
  auto contents = Contents(dir);
  const bool mute = B(r, 0.1) && fs::exists("/dev/full");
  std::string said;
  const int rc = Program({relative ? fs::relative(in, dir).string() : in.string()}, dir, &said, 120, mute);
  k.Eval();
  if (rc != 0)
    return k.Fail("exit", fmt("the program given a valid problem ended with %d and said\n", rc) +
                              said.substr(0, 1000) + Describe(c));
  auto after = Files(dir);
  after.insert(before.begin(), before.end());
  auto expect = before;
  expect.insert(out.string());
  if (!fs::exists(out)) return k.Fail("file", "no " + out.filename().string() + " was written for " + in.filename().string());
  if (after != expect) return k.Fail("file", "other files than " + out.filename().string() + " were written");
  const auto text = Slurp(out);
  for (auto& [f, h] : contents)
    if (f != out.string() && Hash(Slurp(f)) != h) return k.Fail("file", "the program changed " + f);
  if (mute) ctx.Count("runs which could not say anything");
  // ---- the number of histories
  const auto nl = text.find('\n');
  if (text.substr(0, nl) != std::to_string(c.histories))
    return k.Fail("histories", "the first line is '" + text.substr(0, std::min<size_t>(nl, 80)) +
                                   fmt("', the input asks for %d histories", c.histories));
  std::string why;
  const auto b = ParseOutput(nl == std::string::npos ? "" : text.substr(nl), &why);
  if (!b) return k.Fail("format", "cannot read the output file: " + why);
  // ---- the same problem in this process
  auto res = RunProblem(c, k, "q", !many);
  const auto here = ParseOutput(res.est->to_string(), &why);
  if (!here) return k.Fail("format", "cannot read the results: " + why);
  if (c.threads == 1 && !many && text != std::to_string(c.histories) + "\n" + res.est->to_string()) {
    // judged number by number below
    ctx.Count("outputs that differ in text");
  }
  size_t n = 0;
  for (auto& e : c.estimators) {
    for (int s = -1; s < (int)e.sensitivities.size(); s++, n++) {
      const std::string name = e.name + (s < 0 ? "" : "::" + e.sensitivities[s]);
      if (n >= b->size()) return k.Fail("complete", name + " is missing from the output file");
      const Block& x = (*b)[n];
      k.Eval();
      if (x.name != name)
        return k.Fail("order", "block " + std::to_string(n) + " is named " + x.name + ", expected " + name);
      if (s < 0) {
        k.Eval(2);
        auto m = Boundaries(x.cosine, e.cosine);
        if (!m.empty()) return k.Fail("bins", name + ": cosine: " + m);
        m = Boundaries(x.energy, e.energy);
        if (!m.empty()) return k.Fail("bins", name + ": energy: " + m);
        ctx.Count("boundary lists", 2);
      }
      if (x.mean.size() != RefSize(e) || x.sd.size() != RefSize(e))
        return k.Fail("complete", fmt("%s: %zu means and %zu standard errors for %zu bins", name.c_str(),
                                      x.mean.size(), x.sd.size(), RefSize(e)));
      const auto y = std::find_if(here->begin(), here->end(), [&](auto& z) { return z.name == name; });
      if (y == here->end()) return k.Fail("in process", name + " is missing from the run in this process");
      // against the recorded histories
      RefScores ref;
      double mag = 0;
      if (!many) {
        size_t p = 0;
        if (s >= 0)
          while (c.perturbations[p].first != e.sensitivities[s]) p++;
        ref = RefTally(e, res.hist, [&](const Track& t, size_t i) {
          const double v = s < 0 ? 1 : t.steps[i].indirect[p];
          mag += std::abs(v);
          return v;
        });
        const auto m = CompareScores(x, ref, c.histories, 2e-6, 1e-12 * mag / c.histories + 1e-300);
        if (!m.empty()) return k.Fail("numbers", m);
      }
      for (size_t j = 0; j < x.mean.size(); j++) {
        for (int q = 0; q < 2; q++) {
          const auto& u = q ? x.sd[j] : x.mean[j];
          const auto& v = q ? y->sd[j] : y->mean[j];
          double a, d;
          k.Eval();
          if (!ParseNumber(u, a) || !ParseNumber(v, d))
            return k.Fail("numbers", name + ": '" + u + "' and '" + v + "' are not both finite numbers");
          // cancellation in sums over threads
          const double tol = (s < 0 ? 0 : 1e-7 * mag / c.histories) +
                             (q ? 1e-6 * std::abs(q ? std::strtod(x.mean[j].c_str(), nullptr) : 0) : 0);
          if (std::abs(a - d) > 2e-6 * std::abs(d) + tol)
            return k.Fail("numbers", fmt("%s: bin %zu: %s written, %s found in process", name.c_str(), j,
                                         u.c_str(), v.c_str()));
          if (a) k.Nontrivial(HashD(HashD(Hash(name), a), j));
        }
        ctx.Count(s < 0 ? "estimator bins" : "sensitivity bins");
      }
    }
  }
  if (n != b->size()) return k.Fail("complete", (*b)[n].name + " is written but not asked for");
  ctx.Count("runs compared");
  if (old) ctx.Count("runs replacing an older output file");
  if (many) ctx.Count("runs of ten thousand histories or more");
  if (n > 1)
    ctx.Sample(fmt("{\"input\":\"%s\",\"histories\":%d,\"threads\":%d,\"blocks\":%zu,\"bytes\":%zu}",
                   (stem + ext).c_str(), c.histories, c.threads, n, text.size()));
  res = {};
  fs::remove_all(dir);
}

// runs that cannot succeed
void Unsuccessful(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  fs::path dir;
  ScratchDir(k, dir);
  Config c = Problem(r, ctx, 0);
  const int cell = RefFindCell(c, c.src);
  if (cell < 0 || c.cells[cell].is_void) return;
  const std::string in = WriteProblem(c, dir, "p"), other = WriteProblem(c, dir, "q");
  fs::create_directory(dir / "empty");
  auto judge = [&](const std::string& what, const std::vector<std::string>& args, const std::string& allowed) {
    const auto before = Files(dir);
    std::string said;
    const int rc = Program(args, dir, &said, 60);
    k.Eval();
    k.Nontrivial(Mix(Hash(what), Hash(said)));
    ctx.Count("unsuccessful: " + what);
    if (rc == 0 || rc >= 1000)
      k.Fail("unsuccessful: " + what, "the program, " + what + ", ended with " + std::to_string(rc) +
                                          " and said\n" + said.substr(0, 600));
    for (auto& f : Files(dir))
      if (!before.count(f) && fs::is_regular_file(f) && fs::file_size(f) > 0)
        k.Fail("unsuccessful: " + what, "the program, " + what + ", left " + f);
  };
  judge("without arguments", {}, "");
  judge("with two arguments", {in, other}, "");
  judge("with three arguments", {in, other, in}, "");
  judge("with an empty argument", {""}, "");
  judge("with a missing input", {(dir / "gone.xml").string()}, "");
  judge("with a directory", {(dir / "empty").string()}, "");
  // the input cut short
  const auto s = Slurp(in);
  Spill(dir / "cut.xml", s.substr(0, I(r, 0, (int)s.size() - 12)));
  judge("with a damaged input", {(dir / "cut.xml").string()}, "");
  // results that cannot be written
  fs::create_directory(dir / "d.out");
  Spill(dir / "d.xml", s);
  judge("with a directory in place of its output", {(dir / "d.xml").string()}, "");
  if (fs::exists("/dev/full")) {
    fs::create_symlink("/dev/full", dir / "f.out");
    Spill(dir / "f.xml", s);
    judge("with its output on a full device", {(dir / "f.xml").string()}, "");
  }
  fs::remove_all(dir);
}
// several runs at once, with the same data files: none disturbs another
void Together(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  fs::path dir;
  ScratchDir(k, dir);
  Config c = Problem(r, ctx, 1 + B(r, 0.2));
  c.threads = 1; // the very same output each time
  c.histories = I(r, 20, 300);
  const int cell = RefFindCell(c, c.src);
  if (cell < 0 || c.cells[cell].is_void) return;
  const auto s = Slurp(WriteProblem(c, dir, "p"));
  const int n = I(r, 2, 6);
  const auto contents = Contents(dir);
  std::vector<std::string> in;
  for (int i = 0; i < n; i++) {
    in.push_back((dir / ("r" + std::to_string(i) + ".xml")).string());
    Spill(in.back(), s);
  }
  std::vector<int> rc(n);
  std::vector<std::string> said(n);
  // children of children, so that all run at once
  const int all = Forked([&] {
    std::vector<pid_t> pids;
    for (int i = 0; i < n; i++) {
      const pid_t pid = fork();
      if (pid == 0) {
        const char* exe = getenv("MINIMC_PROGRAM");
        if (chdir(dir.c_str())) _exit(95);
        execl(exe, exe, in[i].c_str(), static_cast<char*>(nullptr));
        _exit(96);
      }
      pids.push_back(pid);
    }
    int bad = 0;
    for (auto p : pids) {
      int st = 0;
      waitpid(p, &st, 0);
      bad += !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    }
    return bad;
  }, &said[0], 240);
  k.Eval(n);
  ctx.Count("runs beside others", n);
  if (all != 0)
    k.Fail("together", fmt("%d of %d runs at once did not succeed: ", all, n) + said[0].substr(0, 800) + Describe(c));
  for (auto& [f, h] : contents)
    if (Hash(Slurp(f)) != h) k.Fail("file", "the program changed " + f);
  if (all == 0) {
    std::string alone;
    const auto x = (dir / "alone.xml");
    Spill(x, s);
    if (Program({x.string()}, dir, &alone) == 0) {
      const auto t = Slurp(dir / "alone.out");
      for (int i = 0; i < n; i++) {
        k.Nontrivial(Mix(Hash(t), i));
        if (Slurp(dir / ("r" + std::to_string(i) + ".out")) != t)
          k.Fail("together", fmt("one of %d runs at once wrote something else than one alone; ", n) + Describe(c));
      }
    }
  }
  fs::remove_all(dir);
}
} // namespace

void Run(Ctx& ctx) {
  if (!getenv("MINIMC_PROGRAM")) return;
  ctx.Cases("multigroup", ctx.N(700, 15000), [&](Case& k) { Faithful(ctx, k, 0); });
  ctx.Cases("continuous", ctx.N(200, 4000), [&](Case& k) { Faithful(ctx, k, 1); });
  ctx.Cases("thermal", ctx.N(60, 1200), [&](Case& k) { Faithful(ctx, k, 2); });
  ctx.Cases("together", ctx.N(60, 1200), [&](Case& k) { Together(ctx, k); });
  ctx.Cases("unsuccessful", ctx.N(40, 600), [&](Case& k) { Unsuccessful(ctx, k); });
}
} // namespace mon
