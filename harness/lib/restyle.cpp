// Writes an input in another spelling: the same document to anyone who reads
// XML and the types declared in the schema, other bytes.
#include "model.hpp"
#include "common.hpp"

#include <algorithm>
#include <pugixml.hpp>
#include <set>

namespace mon {
namespace {

const std::set<std::string> kUnordered{ // xs:all
    "minimc", "general", "nuclide", "neutron", "photon", "fission", "scatter",
    "tsl", "sphere", "linear", "fixedsource", "bins", "current"};
const std::set<std::string> kReal{
    "awr", "aden", "afrac", "r", "x", "y", "z", "temperature", "c", "lower",
    "upper", "b", "u", "v", "w", "min", "max", "base", "beta_cutoff",
    "alpha_cutoff", "energy"};
const std::set<std::string> kInt{"groups", "bins"};

struct Writer {
  uint64_t style;
  bool reactions; // also reorder continuous reactions
  std::string out;

  bool P(Rng& r, double p) { return U(r) < p; }

  std::string Space(Rng& r, bool some) {
    static const char* w[] = {" ", "\n", "\t", "\r\n", "  ", "\n\n   ", " \t "};
    std::string s;
    if (some || P(r, 0.3)) s += w[I(r, 0, 6)];
    while (P(r, 0.15)) s += w[I(r, 0, 6)];
    return s;
  }
  /// An equivalent way to write a decimal number
  std::string Number(Rng& r, const std::string& s) {
    size_t i = 0;
    std::string sign, digits;
    int exp = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) sign = s[i++];
    const size_t b = i;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) digits += s[i++];
    if (i < s.size() && s[i] == '.') {
      i++;
      while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) {
        digits += s[i++];
        exp--;
      }
    }
    if (digits.empty() || i == b) return s;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      size_t used = 0;
      try {
        exp += std::stoi(s.substr(i + 1), &used);
      }
      catch (...) {
        return s;
      }
      i += 1 + used;
    }
    if (i != s.size()) return s; // not a number: INF, NaN, text
    if (P(r, 0.3)) return s;
    while (P(r, 0.2)) digits = "0" + digits;
    while (P(r, 0.2)) {
      digits += "0";
      exp--;
    }
    // where to put the point
    const int n = static_cast<int>(digits.size());
    int at = P(r, 0.6) && n + exp >= 0 && n + exp <= n ? n + exp
                                                    : I(r, 0, n);
    const int e = exp + n - at;
    std::string m = digits.substr(0, at);
    if (at < n) m += "." + digits.substr(at);
    else if (P(r, 0.3)) m += ".";
    if (sign == "+") sign = "";
    if (sign.empty() && P(r, 0.2)) sign = "+";
    std::string t = sign + m;
    if (e || P(r, 0.2))
      t += std::string{P(r, 0.5) ? "e" : "E"} +
           (e < 0 ? "-" : P(r, 0.4) ? "+" : "") + (P(r, 0.2) ? "0" : "") +
           std::to_string(std::abs(e));
    return t;
  }
  std::string Int(Rng& r, std::string s) {
    for (char c : s)
      if (!isdigit(static_cast<unsigned char>(c))) return s;
    while (P(r, 0.25)) s = "0" + s;
    if (P(r, 0.25)) s = "+" + s;
    return s;
  }
  std::string Escape(Rng& r, const std::string& s, char quote) {
    std::string t;
    for (char c : s) {
      if (c == '&') t += P(r, 0.8) ? "&amp;" : "&#38;";
      else if (c == '<') t += P(r, 0.8) ? "&lt;" : "&#x3C;";
      else if (c == '>') t += P(r, 0.5) ? "&gt;" : quote ? ">" : "&#62;";
      else if (c == quote && quote) t += quote == '"' ? "&quot;" : "&apos;";
      else if (static_cast<unsigned char>(c) > 32 &&
               static_cast<unsigned char>(c) < 127 && P(r, 0.02))
        t += P(r, 0.5) ? fmt("&#%d;", c) : fmt("&#x%X;", c);
      else t += c;
    }
    return t;
  }
  std::string Remark(Rng& r) {
    static const char* w[] = {
        "<!-- -->", "<!---->", "<!-- <cell name=\"x\"> 1 2 3 -->", "<?note 7?>",
        "<!-- histories > 12 & more -->", "<?xml-stylesheet href=\"a\"?>",
        "<!--\n\n-->"};
    return w[I(r, 0, 6)];
  }
  std::string Between(Rng& r) {
    std::string s = Space(r, P(r, 0.6));
    while (P(r, 0.12)) s += Remark(r) + Space(r, P(r, 0.5));
    return s;
  }
  /// Text in which remarks may stand, and which may be CDATA
  std::string Text(Rng& r, const std::string& s) {
    if (P(r, 0.06)) return "<![CDATA[" + s + "]]>";
    std::string t;
    const int cuts = P(r, 0.25) ? I(r, 1, 3) : 0;
    std::vector<size_t> at;
    for (int i = 0; i < cuts; i++) at.push_back(I(r, 0, static_cast<int>(s.size())));
    std::sort(at.begin(), at.end());
    size_t from = 0;
    for (size_t a : at) {
      t += P(r, 0.1) ? "<![CDATA[" + s.substr(from, a - from) + "]]>"
                     : Escape(r, s.substr(from, a - from), 0);
      if (P(r, 0.8)) t += Remark(r);
      from = a;
    }
    return t + Escape(r, s.substr(from), 0);
  }

  void Node(const pugi::xml_node& n, const std::string& path) {
    Rng r{Hash(path) ^ (style * 0x9e3779b97f4a7c15ull)};
    const std::string name = n.name();
    const bool mg = n.root().child("minimc").child("nuclides").child("multigroup");
    out += "<" + name;
    std::vector<pugi::xml_attribute> as;
    for (auto a : n.attributes()) as.push_back(a);
    if (P(r, 0.7))
      for (size_t i = as.size(); i > 1; i--)
        std::swap(as[i - 1], as[I(r, 0, static_cast<int>(i) - 1)]);
    for (auto& a : as) {
      std::string v = a.value();
      const std::string an = a.name();
      if (kReal.count(an) || kInt.count(an)) {
        v = kReal.count(an) ? Number(r, v) : Int(r, v);
        if (P(r, 0.15)) v = Space(r, true) + v;
        if (P(r, 0.15)) v += Space(r, true);
      }
      const char q = P(r, 0.5) ? '"' : '\'';
      out += Space(r, true) + an;
      if (P(r, 0.1)) out += Space(r, true);
      out += "=";
      if (P(r, 0.1)) out += Space(r, true);
      // Xerces reads namespace declarations without expanding references
      out += q + (an[0] == 'x' && an.size() > 1 ? v : Escape(r, v, q)) + q;
    }
    if (P(r, 0.1)) out += Space(r, true);
    std::vector<pugi::xml_node> kids;
    std::string text;
    for (auto k : n.children()) {
      if (k.type() == pugi::node_element) kids.push_back(k);
      else if (k.type() == pugi::node_pcdata) text += k.value();
    }
    if (kids.empty() && text.empty()) {
      if (P(r, 0.6)) out += "/>";
      else out += ">" + std::string{P(r, 0.2) ? Remark(r) : ""} + "</" + name + ">";
      return;
    }
    out += ">";
    if (kids.empty()) {
      std::string t;
      std::vector<std::string> words;
      for (size_t i = 0; i < text.size();) {
        while (i < text.size() && isspace(static_cast<unsigned char>(text[i]))) i++;
        std::string w;
        while (i < text.size() && !isspace(static_cast<unsigned char>(text[i]))) w += text[i++];
        if (!w.empty()) words.push_back(w);
      }
      if (name == "tracking") t = text;
      else {
        const bool ints = name == "histories" || name == "threads" ||
                          name == "chunksize" || name == "seed";
        if (P(r, 0.4)) t += Space(r, true);
        for (size_t i = 0; i < words.size(); i++)
          t += (i ? Space(r, true) : "") +
               (ints ? Int(r, words[i])
                     : name == "particles" ? words[i] : Number(r, words[i]));
        if (P(r, 0.4)) t += Space(r, true);
      }
      out += Text(r, t);
    }
    else {
      bool shuffle = kUnordered.count(name) && P(r, 0.7);
      if ((name == "neutron" || name == "photon") && !mg && !reactions) shuffle = false;
      if (shuffle)
        for (size_t i = kids.size(); i > 1; i--)
          std::swap(kids[i - 1], kids[I(r, 0, static_cast<int>(i) - 1)]);
      for (auto& k : kids) {
        out += Between(r);
        // the position among siblings does not change when others are added
        int idx = 0;
        for (auto s = k.previous_sibling(k.name()); s; s = s.previous_sibling(k.name())) idx++;
        Node(k, path + "/" + k.name() + std::to_string(idx));
      }
      out += Between(r);
    }
    out += "</" + name;
    if (P(r, 0.1)) out += Space(r, true);
    out += ">";
  }
};

std::string Encode(Rng& r, const std::string& utf8) {
  std::vector<uint32_t> cp;
  for (size_t i = 0; i < utf8.size();) {
    const unsigned char c = utf8[i];
    const int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
    for (int k = 1; k < n && i + k < utf8.size(); k++)
      v = (v << 6) | (utf8[i + k] & 0x3F);
    cp.push_back(v);
    i += n;
  }
  const bool latin = std::all_of(cp.begin(), cp.end(), [](uint32_t v) { return v < 256; });
  const char* q = U(r) < 0.5 ? "\"" : "'";
  auto decl = [&](const char* enc) {
    return fmt("<?xml version=%s1.0%s encoding=%s%s%s%s?>", q, q, q, enc, q,
               U(r) < 0.2 ? " standalone=\"yes\"" : "");
  };
  const int kind = I(r, 0, 9);
  if (kind <= 3) return utf8;
  if (kind <= 5) return decl(U(r) < 0.7 ? "UTF-8" : "utf-8") + "\n" + utf8;
  if (kind == 6) return "\xEF\xBB\xBF" + (U(r) < 0.5 ? decl("UTF-8") : "") + utf8;
  if (kind == 7 && latin) {
    std::string s = decl("ISO-8859-1");
    for (uint32_t v : cp) s += static_cast<char>(v);
    return s;
  }
  if (kind >= 8) {
    const bool le = kind == 8;
    std::vector<uint32_t> all;
    all.push_back(0xFEFF);
    for (char c : decl("UTF-16")) all.push_back(static_cast<unsigned char>(c));
    all.insert(all.end(), cp.begin(), cp.end());
    std::string s;
    auto put = [&](uint32_t u) {
      const char lo = static_cast<char>(u & 255), hi = static_cast<char>(u >> 8);
      if (le) s += {lo, hi};
      else s += {hi, lo};
    };
    for (uint32_t v : all) {
      if (v < 0x10000) put(v);
      else {
        put(0xD800 + ((v - 0x10000) >> 10));
        put(0xDC00 + ((v - 0x10000) & 0x3FF));
      }
    }
    return s;
  }
  return utf8;
}
} // namespace

std::string Restyle(const std::string& xml, uint64_t style, bool reactions) {
  pugi::xml_document doc;
  if (!doc.load_buffer(xml.data(), xml.size())) return xml;
  Writer w{style, reactions, {}};
  Rng r{style};
  while (U(r) < 0.2) w.out += "<!-- before -->\n";
  w.Node(doc.first_child(), "");
  if (U(r) < 0.3) w.out += "\n<!-- after -->\n";
  return Encode(r, w.out);
}
} // namespace mon
