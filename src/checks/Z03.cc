// Z03: photographic JPEGs become substantially smaller, and the compression
// does not fall behind that of the released encoder.
#include "codec.h"
#include "ref_api.h"

using namespace codec;

static bool Size(const Bytes& in, size_t* n) {
  brunsli::JPEGData jpg;
  Bytes brn;
  if (!Read(in, &jpg) || !Encode(jpg, &brn)) return false;
  *n = brn.size();
  return true;
}

static size_t RefSize(Case& c, const Bytes& in) {
  Bytes brn;
  c.Check(ref::Encode(in, 2, &brn), "ref-refused", "");
  return brn.size();
}

// Adds what cameras and editors add.
static Bytes WithMetadata(pbt::Rng& r, const Bytes& in) {
  Bytes out(in.begin(), in.begin() + 2);
  auto seg = [&](uint8_t m, const std::string& p) {
    out.push_back(0xFF);
    out.push_back(m);
    out.push_back((uint8_t)((p.size() + 2) >> 8));
    out.push_back((uint8_t)(p.size() + 2));
    out.insert(out.end(), p.begin(), p.end());
  };
  std::string xmp("http://ns.adobe.com/xap/1.0/\0<x:xmpmeta xmlns:x=\"adobe:ns:meta/\">", 65);
  int n = r.Range(10, 60);
  for (int i = 0; i < n; ++i)
    xmp += pbt::Fmt("<rdf:li stEvt:action=\"saved\" stEvt:when=\"2019-0%d-%02dT%02d:00\"/>\n", r.Range(1, 9), r.Range(1, 28), r.Range(0, 23));
  std::string exif("Exif\0\0MM\0*", 10);
  for (int i = 0; i < 300; ++i) exif.push_back(i % 12 < 7 ? 0 : (char)r.Below(r.Chance(1, 3) ? 256 : 8));
  seg(0xE1, exif);
  seg(0xE1, xmp);
  out.insert(out.end(), in.begin() + 2, in.end());
  return out;
}

// Expected saving on average, in percent, well below what is measured for
// images of this size.
static double Floor(int format, int quality) {
  if (format == 0) return quality <= 60 ? 23.5 : quality <= 80 ? 21 : 18.5;
  if (format == 1) return quality <= 60 ? 18 : quality <= 80 ? 18 : quality <= 93 ? 17 : 14.5;
  return quality <= 60 ? 18.5 : quality <= 80 ? 15.5 : quality <= 93 ? 12 : 9.5;
}

static void Prop(Src& s, Case& c) {
  static const char* kFormat[] = {"baseline", "baseline-optimized", "progressive"};
  static const char* kSampling[] = {"444", "422", "420", "gray"};
  bool batch = s.Chance(3, 5);
  jg::PhotoParams p;
  p.sampling = s.Below(4);
  int format = s.Below(3);
  p.progressive = format == 2;
  p.optimized = format >= 1;
  p.quality = 50 + s.Below(48);
  if (batch) {
    int n = 3;
    size_t jpg = 0, brn = 0, ref = 0;
    p.width = 400 + s.Below(240);
    p.height = 320 + s.Below(200);
    if (s.Chance(1, 40)) {
      // Here the encoder uses richer context schemes and samples its statistics.
      n = 1;
      p.width = 1000 + s.Below(c.thorough ? 3000 : 1200);
      p.height = 800 + s.Below(c.thorough ? 2000 : 800);
      c.Label("large photo");
    }
    uint64_t seed = s.Seed();
    bool others = s.Chance(1, 3);
    if (others) {
      // Progressive files have no coefficients outside of the image.
      p.width &= ~15;
      p.height &= ~15;
    }
    std::string what = pbt::Fmt("%s %s quality %d, %dx%d", kFormat[format], kSampling[p.sampling], p.quality, p.width, p.height);
    for (int i = 0; i < n; ++i) {
      p.seed = seed + i;
      jg::Jpeg j = jg::Photo(p);
      if (i == 0) c.Attach("input.jpg", j.bytes);
      size_t one;
      c.Check(Size(j.bytes, &one), "refused", "an ordinary photo is refused");
      jpg += j.bytes.size();
      brn += one;
      ref += RefSize(c, j.bytes);
      c.Check(one < j.bytes.size() * 0.93, "photo-not-smaller",
              pbt::Fmt("%s: %zu to %zu bytes", what.c_str(), j.bytes.size(), one));
      if (others && i == 0) {
        // The same coefficients in another form of JPEG.
        jg::PhotoParams o = p;
        o.progressive = !p.progressive;
        o.optimized = true;
        size_t two;
        c.Check(Size(jg::Photo(o).bytes, &two), "refused", "");
        c.Check(std::max(one, two) <= std::min(one, two) * 1.003 + 400, "form-dependent",
                pbt::Fmt("%s: %zu bytes, otherwise coded %zu", what.c_str(), one, two));
        c.Label("other-form");
      }
    }
    double saving = 100.0 * (1 - (double)brn / jpg);
    c.Label(std::string("photos-") + kFormat[format]);
    c.Label(std::string("sampling-") + kSampling[p.sampling]);
    c.Sum(std::string("saving-") + kFormat[format], saving);
    c.Key(pbt::Hash(&p, sizeof(p)));
    c.Sample(pbt::Fmt("%s: %.1f%% saved", what.c_str(), saving));
    c.NonTrivial();
    c.Evals(n - 1);
    c.Check(saving >= Floor(format, p.quality), "saving-too-small",
            pbt::Fmt("%s: only %.2f%% saved", what.c_str(), saving));
    c.Check(brn <= ref * 1.005, "behind-released-encoder", pbt::Fmt("%s: %zu bytes instead of %zu", what.c_str(), brn, ref));
    return;
  }
  // Any size, any quality, with and without metadata.
  p.quality = 5 + s.Below(95);
  p.width = 1 + s.Size(600);
  p.height = 1 + s.Size(500);
  p.seed = s.Seed();
  jg::Jpeg j = jg::Photo(p);
  Bytes in = j.bytes;
  pbt::Rng r(s.Seed());
  bool meta = s.Chance(1, 3);
  if (meta) in = WithMetadata(r, in);
  c.Attach("input.jpg", in);
  c.Label(meta ? "any-size-metadata" : "any-size");
  c.Key(pbt::Hash(in));
  std::string what = pbt::Fmt("%s %s quality %d, %dx%d%s", kFormat[format], kSampling[p.sampling], p.quality, p.width,
                              p.height, meta ? ", metadata" : "");
  size_t one;
  c.Check(Size(in, &one), "refused", what);
  size_t ref = RefSize(c, in);
  c.Sample(what + pbt::Fmt(": %zu to %zu bytes", in.size(), one));
  c.NonTrivial();
  c.Check(one <= in.size() + 64, "larger-than-jpeg", what + pbt::Fmt(": %zu to %zu bytes", in.size(), one));
  c.Check(one <= ref * 1.01 + 64, "behind-released-encoder", what + pbt::Fmt(": %zu bytes instead of %zu", one, ref));
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "Z03";
  p.rule =
      "A case is a batch of three natural-looking photos of one format, sampling and quality, compared with the "
      "JPEG sizes, with the released encoder and with other forms of the same image; or one photo of any size, "
      "quality and metadata; non-trivial = sizes were compared";
  p.quick_cases = 1500;
  p.thorough_cases = 40000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
