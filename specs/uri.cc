// URIs: the documented grammar, the parsed parts, and the normalised form.
#include <string>
#include "specs/common.h"
#include "ink/types/uri.h"
using namespace ink;
using A = Uri::AssetType;
// An independent recogniser for the documented grammar.
struct Ref { bool ok = false; std::string_view reg, type, name, rev; };
static bool Word(char c) { return (c >= 'a' && c <= 'z') || c == '-'; }
static bool Digit(char c) { return c >= '0' && c <= '9'; }
static char Low(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static Ref Parse(std::string_view s) {
  Ref r; size_t i = 0, n = s.size(); auto word = [&]() { size_t b = i; while (i < n && Word(s[i])) ++i; return s.substr(b, i - b); };
  if (n >= 4 && Low(s[0]) == 'i' && Low(s[1]) == 'n' && Low(s[2]) == 'k' && s[3] == ':') i = 4;
  if (i + 1 < n && s[i] == '/' && s[i + 1] == '/') { i += 2; r.reg = word(); if (r.reg.empty()) return r; }
  if (i >= n || s[i] != '/') return r; ++i; r.type = word();
  bool bf = r.type.size() == 12 && r.type.compare("brush-family") == 0, tx = r.type.size() == 7 && r.type.compare("texture") == 0; if (!bf && !tx) return r;
  if (i >= n || s[i] != ':') return r; ++i; r.name = word(); if (r.name.empty()) return r;
  if (i < n) { if (s[i] != ':') return r; ++i; size_t b = i; while (i < n && Digit(s[i])) ++i; r.rev = s.substr(b, i - b); if (r.rev.empty() || r.rev.size() > 9 || r.rev[0] == '0' || i != n) return r; }
  r.ok = true; return r; }
static void Agree(std::string_view s) {
  auto u = Uri::Parse(s); Ref r = Parse(s);
  if (r.ok) { ai_assert(u.ok(), "grammatical-uri-accepted"); if (!u.ok()) return;
    ai_assert(u->GetAssetType() == (r.type.size() == 7 ? A::kTexture : A::kBrushFamily), "asset-type-parsed"); ai_assert(u->GetAssetName() == r.name, "asset-name-parsed"); ai_assert(u->GetRegName() == (r.reg.empty() ? std::string_view("ink") : r.reg), "reg-name-parsed-or-default");
    ai_assert(u->HasInkRegName() == (u->GetRegName() == "ink"), "ink-reg-name"); if (r.rev.empty()) ai_assert(u->GetRevisionNumber() == 1, "default-revision");
    if (!r.rev.empty()) return; auto back = Uri::Parse(u->ToNormalizedString()); ai_assert(back.ok() && *back == *u, "normal-form-parses-back-equal");
  } else ai_assert(!u.ok(), "ungrammatical-uri-rejected"); }
static char Byte() { switch (ai_split(ai_i32(0, 9, "class"))) { case 0: return '/'; case 1: return ':'; case 2: return '-'; case 3: return '0'; case 4: return (char)ai_u8('1', '9', "digit"); case 5: return (char)ai_u8('a', 'z', "lower"); case 6: return (char)ai_u8('A', 'Z', "upper"); case 7: return '?'; case 8: return '#'; default: return ai_bool("hi") ? (char)ai_u8(123, 255, "other") : (char)ai_u8(1, 34, "other"); } }
static std::string Base() { static const char* b[] = {"/texture:ab", "//my-reg/texture:x-:12", "ink:/brush-family:a", "INK://ink/texture:zz:123456789", "//a/brush-family:c:7"}; return b[ai_split(ai_i32(0, 4, "base"))]; }
PROP(uri_replaced_byte) { std::string s = Base(); size_t i = (size_t)ai_split(ai_i32(0, 29, "at")); if (i >= s.size()) ai_stop(); s[i] = Byte(); Agree(s); }
PROP(uri_truncated) { std::string s = Base(); size_t i = (size_t)ai_split(ai_i32(1, 30, "length")); if (i > s.size()) ai_stop(); s.resize(i); Agree(s); }
PROP(uri_appended) { std::string s = Base(); s += Byte(); Agree(s); }
PROP(uri_inserted) { std::string s = Base(); size_t i = (size_t)ai_split(ai_i32(0, 29, "at")); if (i >= s.size()) ai_stop(); static const char c[] = "/:0a"; s.insert(i, 1, c[ai_split(ai_i32(0, 3, "byte"))]); Agree(s); }
PROP(uri_removed) { std::string s = Base(); size_t i = (size_t)ai_split(ai_i32(0, 29, "at")); if (i >= s.size()) ai_stop(); s.erase(i, 1); Agree(s); }
static int Rev(int k) { static const int r[] = {1, 1, 2, 10, 100200300, 999999999, 1}; return r[k]; }
static Uri Made(int reg, int type, int rev) { static const char* g[] = {"", "//ink", "//foo-bar", "//inkwell", "//in", "//x-ink"}; static const char* t[] = {"/texture:", "/brush-family:"}; static const char* r[] = {"", ":1", ":2", ":10", ":100200300", ":999999999", ""}; std::string s = std::string(g[reg]) + t[type] + "ab-c" + r[rev]; auto u = Uri::Parse(s); ai_assert(u.ok(), "grammatical-uri-accepted"); if (!u.ok()) ai_stop(); return *u; }
PROP(uri_round_trip) { int g = (int)ai_split(ai_i32(0, 5, "reg")), t = (int)ai_split(ai_i32(0, 1, "type")), r = (int)ai_split(ai_i32(0, 5, "rev")); Uri u = Made(g, t, r); ai_assert(u.GetRevisionNumber() == Rev(r), "revision-parsed"); std::string n = u.ToNormalizedString(); auto v = Uri::Parse(n); ai_assert(v.ok(), "normal-form-parses"); if (!v.ok()) return; ai_assert(*v == u && !(*v != u), "normal-form-parses-back-equal"); SameHash(*v, u, "equal-uris-hash-equal");
  ai_assert((n[0] == '/' && n[1] == '/') == (g >= 2), "default-reg-name-omitted"); ai_assert((n.find(":ab-c:") != std::string::npos) == (r >= 2), "default-revision-omitted"); }
PROP(uri_equality) { int g = (int)ai_split(ai_i32(0, 3, "difference")); Uri a = Made(1, 0, 2), b = Made(g == 1 ? 2 : 0, g == 2 ? 1 : 0, g == 3 ? 3 : 2); ai_assert((a == b) == (g == 0) && (a != b) == (g != 0), "equal-exactly-when-all-parts-equal"); }
PROP(uri_default) { Uri u; ai_assert(u.GetRegName().empty() && u.GetAssetName().empty() && u.GetRevisionNumber() == 0 && u.GetAssetType() == A::kUninitialized && u.ToNormalizedString().empty() && !u.HasInkRegName(), "default-uri-is-empty"); auto v = Uri::Parse(""); ai_assert(v.ok() && *v == u, "empty-string-is-the-default-uri"); }
