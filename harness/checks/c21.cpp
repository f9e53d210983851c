// C21: gridded data files are read back exactly; wrong files are rejected.
#include "common.hpp"
#include "model.hpp"

#include "HDF5DataSet.hpp"

#include <fstream>
#include <numeric>
#include <set>

namespace mon {
const char* const kRule =
    "one evaluation is one value, axis, interpolation or refusal compared with "
    "what the monitor wrote to the file; distinct non-trivial ones are those "
    "of files with two or more entries on some axis, identified by file "
    "contents and indices";

namespace {
struct File {
  std::vector<std::vector<double>> axes;
  std::vector<double> values;
  std::string path;
  uint64_t hash = 0;
  size_t Flat(const std::vector<size_t>& i) const {
    size_t f = 0;
    for (size_t l = 0; l < axes.size(); l++) f = f * axes[l].size() + i[l];
    return f;
  }
};
// the layout of pandas, in the number types pandas may use
// kind of values: 0 double, 1 whole, 2 single precision
void Write(Rng& r, const File& f, bool ints, int kind) {
  H5::H5File h(f.path, H5F_ACC_TRUNC);
  auto g = h.createGroup("/pandas");
  const long long n = f.axes.size();
  const auto& at = B(r) ? H5::PredType::NATIVE_ULLONG : H5::PredType::NATIVE_LLONG;
  g.createAttribute("axis1_nlevels", at, H5::DataSpace(H5S_SCALAR)).write(H5::PredType::NATIVE_LLONG, &n);
  std::vector<int> order(f.axes.size());
  std::iota(order.begin(), order.end(), 0);
  std::shuffle(order.begin(), order.end(), r);
  auto data = [&] {
    const hsize_t dims[2] = {f.values.size(), 1};
    H5::DSetCreatPropList plist;
    if (B(r, 0.3)) { // stored in pieces, perhaps compressed
      const hsize_t chunk[2] = {(hsize_t)I(r, 1, (int)std::min<size_t>(f.values.size(), 40)), 1};
      plist.setChunk(2, chunk);
      if (B(r)) plist.setShuffle();
      if (B(r)) plist.setDeflate(I(r, 1, 9));
    }
    g.createDataSet("block0_values", kind == 2 ? H5::PredType::IEEE_F32LE
                                     : kind == 1 ? H5::PredType::STD_I32LE
                                     : B(r, 0.1) ? H5::PredType::IEEE_F64BE
                                                 : H5::PredType::IEEE_F64LE,
                    H5::DataSpace(2, dims), plist)
        .write(f.values.data(), H5::PredType::NATIVE_DOUBLE);
  };
  const bool first = B(r);
  if (first) data();
  for (int i : order) {
    const hsize_t d = f.axes[i].size();
    g.createDataSet(fmt("axis1_level%d", i),
                    ints && B(r) ? H5::PredType::STD_I64LE : H5::PredType::IEEE_F64LE,
                    H5::DataSpace(1, &d))
        .write(f.axes[i].data(), H5::PredType::NATIVE_DOUBLE);
  }
  if (!first) data();
}
File Make(Case& k, int D, const std::filesystem::path& dir, bool large) {
  Rng& r = k.rng;
  File f;
  const bool ints = B(r, 0.3);
  size_t n = 1;
  for (int l = 0; l < D; l++) {
    int size = B(r, 0.15) ? 1 : I(r, 1, D == 1 ? 60 : D == 2 ? 12 : 6);
    // any axis may be long, as long as there are about 2e5 values
    if (large)
      size = l < D - 1 && B(r) ? I(r, 1, 3)
             : l < D - 1 ? (int)LogU(r, 1, std::max(2., 2e5 / n))
                         : std::max(1, (int)(I(r, 100000, 200000) / n));
    std::set<double> a;
    while ((int)a.size() < size)
      a.insert(ints ? (large ? I(r, -1000000, 1000000) : I(r, -50, 50)) : B(r) ? LogU(r, 1e-12, 20) : U(r, -5, 5));
    f.axes.emplace_back(a.begin(), a.end());
    n *= size;
  }
  const int kind = B(r, 0.8) ? 0 : I(r, 1, 2);
  for (size_t i = 0; i < n; i++) {
    const double v = B(r, 0.05) ? 0 : B(r) ? U(r, -2, 2) : LogU(r, 1e-9, 1e9);
    f.values.push_back(kind == 1 ? std::round(v) : kind == 2 ? (double)(float)v : v);
  }
  f.path = (dir / fmt("d%d_%d.h5", D, I(r, 0, 1 << 30))).string();
  for (double v : f.values) f.hash = HashD(f.hash, v);
  Write(r, f, ints, kind);
  return f;
}
template <size_t D, size_t... I_>
double Get(const HDF5DataSet<D>& d, const std::vector<size_t>& i, std::index_sequence<I_...>) {
  return d.at(i[I_]...);
}
template <size_t D> double Get(const HDF5DataSet<D>& d, const std::vector<size_t>& i) {
  return Get(d, i, std::make_index_sequence<D>{});
}
template <class M, size_t D, size_t... I_>
double Map(const M& m, const std::array<double, D>& x, std::index_sequence<I_...>) {
  return m.at(x[I_]...);
}
// multilinear, constant beyond the ends
long double Ref(const File& f, const std::vector<double>& x, size_t level, std::vector<size_t> i) {
  if (level == f.axes.size()) return f.values[f.Flat(i)];
  const auto& a = f.axes[level];
  const double v = x[level];
  auto at = [&](size_t j) {
    auto q = i;
    q.push_back(j);
    return Ref(f, x, level + 1, q);
  };
  if (v <= a.front()) return at(0);
  if (v >= a.back()) return at(a.size() - 1);
  size_t hi = 1;
  while (a[hi] <= v) hi++;
  const long double t = ((long double)v - a[hi - 1]) / ((long double)a[hi] - a[hi - 1]);
  return (1 - t) * at(hi - 1) + t * at(hi);
}
// true if `f` throws
template <class F> bool Throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  } catch (const H5::Exception&) {
    return true;
  }
  return false;
}
template <size_t D> void One(Ctx& ctx, Case& k, const std::filesystem::path& dir, bool large) {
  Rng& r = k.rng;
  const File f = Make(k, D, dir, large);
  HDF5DataSet<D> d{f.path};
  std::string shape;
  for (auto& a : f.axes) shape += fmt("%zu ", a.size());
  const bool big = f.values.size() > 1;
  // every value
  std::vector<size_t> i(D, 0);
  for (size_t n = 0; n < f.values.size(); n++) {
    size_t q = n;
    for (int l = D - 1; l >= 0; l--) {
      i[l] = q % f.axes[l].size();
      q /= f.axes[l].size();
    }
    k.Eval();
    if (big && (n < 1000 || n % 64 == 0)) k.Nontrivial(Mix(f.hash, n));
    const double got = Get<D>(d, i);
    if (!(got == f.values[n]))
      return k.Fail("value", fmt("axes of sizes %s: value %zu is %.17g, stored %.17g",
                                 shape.c_str(), n, got, f.values[n]));
  }
  for (size_t l = 0; l < D; l++) {
    k.Eval();
    if (d.GetAxis(l) != f.axes[l])
      return k.Fail("axis", fmt("axes of sizes %s: axis %zu differs", shape.c_str(), l));
  }
  ctx.Count(fmt("values of files with %zu axes", D), f.values.size());
  // beyond an axis: refused even where the flat index exists
  for (int t = 0; t < 12; t++) {
    for (size_t l = 0; l < D; l++) i[l] = I(r, 0, f.axes[l].size() - 1);
    const size_t l = I(r, 0, D - 1);
    const size_t n = f.axes[l].size();
    i[l] = B(r) ? n : B(r) ? n + I(r, 1, 50) : B(r) ? (size_t)-1 : (size_t)1 << 62;
    k.Eval();
    if (big) k.Nontrivial(Mix(f.hash, Mix(l, i[l])));
    if (!Throws([&] { Get<D>(d, i); }))
      return k.Fail("index", fmt("axes of sizes %s: index %zu of axis %zu was answered",
                                 shape.c_str(), i[l], l));
    ctx.Count("indices beyond an axis");
  }
  // derived interpolation table
  const auto m = d.ToContinuousMap();
  std::array<double, D> x;
  double scale = 0;
  for (double v : f.values) scale = std::max(scale, std::abs(v));
  for (int t = 0; t < 60; t++) {
    bool grid = true;
    for (size_t l = 0; l < D; l++) {
      const auto& a = f.axes[l];
      i[l] = I(r, 0, a.size() - 1);
      x[l] = a[i[l]];
      if (t < 20) continue;
      if (B(r, 0.6) && a.size() > 1) {
        const size_t j = I(r, 0, a.size() - 2);
        x[l] = U(r, a[j], a[j + 1]);
        grid = false;
      }
      else if (B(r, 0.3)) {
        x[l] = B(r) ? a.front() - U(r, 0, 2) : a.back() + U(r, 0, 2);
        grid = false;
      }
    }
    const double got = Map(m, x, std::make_index_sequence<D>{});
    const double want =
        grid ? f.values[f.Flat(i)] : (double)Ref(f, {x.begin(), x.end()}, 0, {});
    k.Eval();
    if (big) k.Nontrivial(HashD(HashD(f.hash, x[0]), want));
    if (grid ? !(got == want) : !(std::abs(got - want) <= 1e-12 * scale))
      return k.Fail(grid ? "grid-point" : "interpolation",
                    fmt("axes of sizes %s: interpolated at (%.17g, ...): %.17g, expected %.17g",
                        shape.c_str(), x[0], got, want));
    ctx.Count(grid ? "grid points" : "interpolations");
  }
  // a different number of axes
  auto refuse = [&](const char* what, bool thrown) {
    k.Eval();
    ctx.Count("wrong files");
    if (!thrown) k.Fail("accepted", fmt("axes of sizes %s: ", shape.c_str()) + what);
    return thrown;
  };
  const std::string p = f.path;
  if (D != 1 && !refuse("read as 1 axis", Throws([&] { HDF5DataSet<1> e{p}; }))) return;
  if (D != 2 && !refuse("read as 2 axes", Throws([&] { HDF5DataSet<2> e{p}; }))) return;
  if (D != 3 && !refuse("read as 3 axes", Throws([&] { HDF5DataSet<3> e{p}; }))) return;
  if (D != 4 && !refuse("read as 4 axes", Throws([&] { HDF5DataSet<4> e{p}; }))) return;
  if (D != 5 && !refuse("read as 5 axes", Throws([&] { HDF5DataSet<5> e{p}; }))) return;
  if (!refuse("missing file read", Throws([&] { HDF5DataSet<D> e{p + ".none"}; }))) return;
  if (!refuse("directory read", Throws([&] { HDF5DataSet<D> e{dir}; }))) return;
  {
    std::ofstream{p + ".txt"} << "not a data file\n";
    std::ofstream{p + ".empty"};
  }
  if (!refuse("text file read", Throws([&] { HDF5DataSet<D> e{p + ".txt"}; }))) return;
  if (!refuse("empty file read", Throws([&] { HDF5DataSet<D> e{p + ".empty"}; }))) return;
  // truncated: refused, or (if nothing needed is lost) read exactly
  std::filesystem::copy_file(p, p + ".cut");
  const auto size = std::filesystem::file_size(p);
  std::filesystem::resize_file(p + ".cut", (uintmax_t)(size * U(r)));
  bool same = false;
  const bool thrown = Throws([&] {
    HDF5DataSet<D> e{p + ".cut"};
    same = true;
    for (size_t n = 0; n < f.values.size(); n++) {
      size_t q = n;
      for (int l = D - 1; l >= 0; l--) {
        i[l] = q % f.axes[l].size();
        q /= f.axes[l].size();
      }
      same = same && Get<D>(e, i) == f.values[n];
    }
  });
  if (!refuse("truncated file read wrongly", thrown || same)) return;
  // data missing: a dataset is absent, or there are fewer values than entries
  File g = f;
  g.path = p + ".part";
  Write(r, g, false, 0);
  {
    H5::H5File h(g.path, H5F_ACC_RDWR);
    const int which = I(r, 0, D);
    if (which == (int)D) h.unlink("/pandas/block0_values");
    else h.unlink(fmt("/pandas/axis1_level%d", which));
  }
  if (!refuse("file without one of its datasets read",
              Throws([&] { HDF5DataSet<D> e{g.path}; }))) return;
  if (f.values.size() > 1) {
    g.path = p + ".short";
    g.values.resize(I(r, 1, f.values.size() - 1));
    Write(r, g, false, 0);
    if (!refuse("value missing in the file answered", Throws([&] {
          HDF5DataSet<D> e{g.path};
          for (size_t l = 0; l < D; l++) i[l] = f.axes[l].size() - 1;
          Get<D>(e, i);
        }))) return;
  }
  if (k.id.back() == '9') ctx.Sample("{\"axes\": \"" + shape + "\"}");
}
} // namespace

void Run(Ctx& ctx) {
  H5::Exception::dontPrint();
  auto body = [&](Case& k, bool large) {
    const auto dir = ctx.scratch / (large ? "large" + k.id.substr(6) : k.id.substr(6));
    std::filesystem::create_directories(dir);
    switch (I(k.rng, 1, 5)) {
    case 1: One<1>(ctx, k, dir, large); break;
    case 2: One<2>(ctx, k, dir, large); break;
    case 3: One<3>(ctx, k, dir, large); break;
    case 4: One<4>(ctx, k, dir, large); break;
    default: One<5>(ctx, k, dir, large);
    }
    std::filesystem::remove_all(dir);
  };
  ctx.Cases("files", ctx.N(1600, 40000), [&](Case& k) { body(k, false); });
  ctx.Cases("large", ctx.N(32, 800), [&](Case& k) { body(k, true); });
}
} // namespace mon
