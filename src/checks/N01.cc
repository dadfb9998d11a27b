// N01: the web server modules, run against stand-ins for the servers.
#include <ctype.h>

#include "../web/web.h"
#include "pbt.h"

using namespace pbt;

namespace {

const char kType[] = "image/x-j";

enum Verdict { kNo, kMaybe, kYes };

std::string Lower(std::string s) {
  for (char& c : s) c = tolower((unsigned char)c);
  return s;
}

std::string Trim(const std::string& s, const char* what) {
  size_t a = s.find_first_not_of(what);
  if (a == std::string::npos) return "";
  return s.substr(a, s.find_last_not_of(what) - a + 1);
}

std::vector<std::string> Split(const std::string& s, char by) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == by) r.push_back("");
    else r.back() += c;
  }
  return r;
}

// Does the header list the type? What is malformed, or given weight zero, or
// spelled in other case, may be taken either way.
Verdict Listed(const std::string& accept) {
  Verdict v = kNo;
  bool quoted = accept.find('"') != std::string::npos;
  for (const std::string& e : Split(accept, ',')) {
    std::vector<std::string> part = Split(e, ';');
    bool zero = false;
    for (size_t i = 1; i < part.size(); ++i) {
      std::string q = Lower(Trim(part[i], " \t"));
      if (q.compare(0, 1, "q") == 0) zero |= q.find_first_not_of("q=0. \t") == std::string::npos;
    }
    if (Trim(part[0], " ") == kType && !zero && !quoted) return kYes;
    std::string squeezed;
    for (const std::string& p : part)
      if (squeezed.empty())
        for (char c : p)
          if (!isspace((unsigned char)c)) squeezed += tolower((unsigned char)c);
    if (squeezed == kType) v = kMaybe;
  }
  std::string low = Lower(accept);
  for (size_t i = 0; (i = low.find(kType, i)) != std::string::npos; ++i) {
    size_t end = i + sizeof(kType) - 1;
    if ((i == 0 || strchr(",; \t", low[i - 1])) && (end == low.size() || strchr(",; \t", low[end]))) v = kMaybe;
  }
  return v;
}

std::string RandomAccept(Src& s) {
  static const char* const kTypes[] = {
      "image/x-j", "image/jpeg", "*/*", "image/*", "image/webp", "text/html", "image/x-jxl", "image/x-jpeg",
      "image/x-jp", "ximage/x-j", "image/x-", "image/x", "image/j", "x-image/x-j", "image/x-j+xml", "image/x-j/2",
      "application/image/x-j", "image/x-jj", "iimage/x-j", "image/image/x-j", "IMAGE/X-J", "image/X-j", "", "j"};
  static const char* const kParams[] = {"", ";q=0.8", "; q=1", ";q=0.001", ";level=1;q=0.5", " ;q=1.0", ";", ";q=0",
                                        ";v=image/x-j", "; q=0.000"};
  static const char* const kSep[] = {",", ", ", " ,", ",,", " , ", ",  ", ",\t", " "};
  std::string r;
  int n = s.Weighted({1, 4, 4, 3, 2, 2, 1, 1, 1});
  if (s.Chance(1, 20)) r += s.Chance(1, 2) ? " " : ",";
  for (int i = 0; i < n; ++i) {
    if (i) r += kSep[s.Weighted({6, 8, 2, 1, 2, 1, 1, 1})];
    r += s.Chance(1, 4) ? kTypes[0] : kTypes[s.Below(24)];
    r += kParams[s.Weighted({10, 3, 2, 1, 1, 1, 1, 1, 1, 1})];
  }
  if (s.Chance(1, 20)) r += s.Chance(1, 2) ? " " : ",";
  if (s.Chance(1, 10)) {
    static const char kChars[] = ",;  \t/*\"=-jxgaIMq0.\x80\xff\x01";
    for (int k = 1 + s.Below(4); k > 0; --k) {
      size_t at = s.Below((uint32_t)r.size() + 1);
      char ch = kChars[s.Below(sizeof(kChars) - 1)];
      if (at < r.size() && s.Chance(1, 2)) r[at] = ch;
      else r.insert(at, 1, ch);
    }
  }
  if (s.Chance(1, 40)) r += std::string(s.Below(3000), ',');
  return r;
}

void Prop(Src& s, Case& c) {
  WebRequest q;
  memset(&q, 0, sizeof q);
  std::string accept = RandomAccept(s);
  bool header = !s.Chance(1, 12);
  q.accept = header ? accept.c_str() : nullptr;
  q.extra_headers = s.Chance(1, 3);
  std::string uri = "/" + std::string(s.Size(40), 'a') + (s.Chance(1, 2) ? ".jpg" : "");
  if (s.Chance(1, 12)) uri += "/";
  std::string path = "/www" + uri + (s.Chance(1, 20) ? "%s%n" : "");
  q.uri = uri.c_str();
  q.path = path.c_str();
  q.variant = s.Weighted({10, 4, 1, 1, 1, 1});
  q.size = s.Chance(1, 6) ? 0 : s.Chance(1, 6) ? 5000000000ll : (int64_t)s.Size(2000000);
  bool nginx = s.Below(2);
  Verdict listed = header ? Listed(accept) : kNo;
  static const char* const kVerdicts[] = {"not-listed", "malformed", "listed"};
  std::string what = pbt::Fmt("%s, Accept: %s", nginx ? "nginx" : "Apache", header ? accept.c_str() : "(none)");
  c.Key(Hash(what.data(), what.size(), q.variant));
  c.Attach("accept.txt", Bytes(accept.begin(), accept.end()));
  c.Label(kVerdicts[listed]);
  WebResponse r;
  std::string j = path + ".j";
  if (!nginx) {
    q.method = s.Below(2);
    q.translate = s.Weighted({10, 1, 1});
    q.no_filename = s.Chance(1, 12);
    c.Sample(what);
    int error = ApacheServe(&q, &r);
    c.Check(error != 1, "setup", "no single hook");
    c.Check(error != 2, "header-changed", "request header modified: " + what);
    bool possible = q.translate == 0 && !q.no_filename && q.variant == WEB_FILE;
    bool served = r.rc == WEB_SERVED;
    c.Check(served || r.rc == WEB_DECLINED, "result", pbt::Fmt("unexpected result %d: ", r.rc) + what);
    if (!possible || listed == kNo) c.Check(!served, "served", "served against the request or the files: " + what);
    if (possible && listed == kYes) c.Check(served, "not-served", "not served though listed: " + what);
    if (served) {
      c.Check(r.file == j, "wrong-file", std::string("serves ") + r.file + ": " + what);
      c.Check(!strcmp(r.type, kType), "wrong-type", std::string("type ") + r.type + ": " + what);
    } else {
      c.Check(r.file != j, "declined-but-renamed", "declined, but the variant would be served: " + what);
      c.Check(!*r.type, "wrong-type", "declined, but a type is set: " + what);
    }
    c.Label(served ? "apache:served" : "apache:declined");
    c.NonTrivial();
    return;
  }
  static const char* const kValues[] = {nullptr, "on", "always", "off", "On"};
  if (q.variant == WEB_SPECIAL && s.Chance(1, 2)) q.variant = WEB_BROKEN;
  q.method = s.Weighted({6, 2, 1});
  q.inner = kValues[s.Weighted({3, 8, 3, 1, 1})];
  q.outer = kValues[s.Weighted({6, 3, 1, 1, 1})];
  q.vary = s.Chance(1, 3);
  q.subrequest = s.Chance(1, 10);
  q.error_page = s.Chance(1, 10);
  q.fault = s.Chance(1, 5) ? 1 + s.Below(7) : 0;
  q.discard = s.Chance(1, 12) ? 413 : 0;
  q.send = s.Weighted({10, 1, 1, 1});
  q.send = q.send == 1 ? -1 : q.send == 2 ? 304 : q.send == 3 ? -2 : 0;
  q.output = s.Chance(1, 10) ? -2 : 0;
  std::string mode = q.inner ? q.inner : q.outer ? q.outer : "off";
  mode = Lower(mode);
  what += pbt::Fmt(", mode %s, vary %d, method %d, variant %d, subrequest %d, fault %d", mode.c_str(), q.vary, q.method,
                   q.variant, q.subrequest, q.fault);
  c.Sample(what);
  int error = NginxServe(&q, &r);
  c.Check(error != 6, "header-changed", "request header modified: " + what);
  c.Check(error == 0, "setup", pbt::Fmt("module set up wrongly (%d)", error));
  c.NonTrivial();
  c.Check(r.opened < 100, "open", pbt::Fmt("file opened wrongly (%d): ", r.opened) + what);
  if (r.opened) c.Check(r.looked_at == j, "wrong-file", std::string("opens ") + r.looked_at + ": " + what);
  c.Check(r.header_sent <= 1 && r.body_sent <= 1 && r.body_sent <= r.header_sent, "twice", "sent twice: " + what);
  if (r.faulted) {
    c.Label("nginx:fault");
    c.Check(r.rc == 500 && !r.header_sent, "fault", pbt::Fmt("result %d after a failure: ", r.rc) + what);
    return;
  }
  bool may = mode != "off" && q.method != 2 && uri.back() != '/';
  if (mode == "on" && q.subrequest) listed = kNo;
  if (mode == "always") listed = kYes;
  bool declined = r.rc == WEB_DECLINED;
  c.Label(declined ? "nginx:declined" : r.header_sent ? "nginx:served" : "nginx:error");
  bool exists = q.variant == WEB_FILE || q.variant == WEB_DIR || q.variant == WEB_SPECIAL;
  if (!may || (mode == "on" && !exists)) c.Check(!r.vary, "vary", "marked as varying: " + what);
  if (mode == "on" && may && q.variant == WEB_FILE && (q.vary || listed == kYes))
    c.Check(r.vary, "vary", "not marked as varying: " + what);
  if (!may || listed == kNo) {
    if (may && q.vary && q.variant == WEB_BROKEN) return;  // an error of the server
    c.Check(declined && !r.header_sent, "served", pbt::Fmt("result %d against the request: ", r.rc) + what);
    return;
  }
  if (listed == kMaybe && declined) {
    c.Check(!r.header_sent, "served", "declined after sending: " + what);
    return;
  }
  if (q.variant == WEB_SPECIAL || q.variant == WEB_BROKEN) {
    if (listed == kYes)
      c.Check(r.rc == (q.variant == WEB_SPECIAL ? 404 : 500) && !r.header_sent, "unreadable",
              pbt::Fmt("result %d for what cannot be served: ", r.rc) + what);
    return;
  }
  if (q.variant != WEB_FILE) {
    c.Check(declined && !r.header_sent, "served", "served what does not exist: " + what);
    return;
  }
  if (q.discard) {
    c.Check(r.rc == q.discard && !r.header_sent, "discard", "request body: " + what);
    return;
  }
  c.Check(r.header_sent == 1, "not-served", "not served though listed: " + what);
  c.Check(r.status == 200 && r.length == q.size && r.mtime == 123456789 && !strcmp(r.type, kType), "header",
          pbt::Fmt("header: status %d, length %lld, type %s: ", r.status, (long long)r.length, r.type) + what);
  c.Check(!*r.encoding || !strcmp(r.encoding, "identity"), "header", std::string("encoding ") + r.encoding + ": " + what);
  c.Check(!(r.gzip_tested && r.gzip_ok), "header", "to be compressed: " + what);
  c.Check(r.root_tested == !q.error_page, "root-tested", "root_tested: " + what);
  if (q.send || q.method == 1) {
    if (q.send == -2 && q.method == 0) {
      c.Check(r.body_sent == 1, "body", "body not sent: " + what);
    } else {
      c.Check(r.rc == q.send && !r.body_sent, "body", "body sent: " + what);
      return;
    }
  }
  c.Check(r.body_sent == 1 && r.rc == q.output, "body", pbt::Fmt("result %d: ", r.rc) + what);
  c.Check(r.fd == 77 && r.file == j && r.first == 0 && r.end == q.size && r.in_file == (q.size > 0), "body",
          pbt::Fmt("body of fd %d, bytes %lld to %lld: ", r.fd, (long long)r.first, (long long)r.end) + what);
  c.Check(r.last == !q.subrequest && r.last_in_chain, "body", "end of response not marked: " + what);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "N01";
  p.rule =
      "A case is one request (generated Accept header, method, URI, files, configuration and one possible failure) to "
      "the Apache or the nginx module; non-trivial = the module ran and its response was compared with the model";
  p.quick_cases = 400000;
  p.thorough_cases = 6000000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
