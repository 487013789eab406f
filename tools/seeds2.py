HDR = '#include <cstdio>\n#include <cmath>\n#include <cstring>\n#include <cstdlib>\n#include <thread>\n#include <vector>\n#include <atomic>\nusing namespace spectator;\nstatic int bad = 0;\n#define CHECK(c) do { if (!(c)) { std::printf("FAILED %s\\n", #c); bad = 1; } } while (0)\n'
def inc(*h): return "".join('#include "%s"\n' % x for x in h)
ASAN = "-fsanitize=address"
SRV = inc("server/spectatord.h", "spectator/registry.h", "util/logger.h") + HDR + '''
struct S : spectatord::Server {
  explicit S(Registry* r) : spectatord::Server(true, 0, {}, {}, r) {}
  using spectatord::Server::parse;
  using spectatord::Server::parse_statsd;
  // in memory of exactly its size
  std::optional<std::string> spectator(const char* t) { return go(t, false); }
  std::optional<std::string> statsd(const char* t) { return go(t, true); }
  std::optional<std::string> go(const char* t, bool st) {
    char* b = static_cast<char*>(malloc(strlen(t) + 1));
    strcpy(b, t);
    auto r = st ? parse_statsd(b) : parse(b);
    free(b);
    return r;
  }
};
static std::unique_ptr<Config> cfg(bool status = true) {
  auto c = std::make_unique<Config>();
  c->meter_ttl = absl::Minutes(15);
  c->age_gauge_limit = 10;
  c->status_metrics_enabled = status;
  return c;
}
'''
CURL = inc("spectator/http_client.h", "spectator/registry.h", "util/logger.h") + '''#include <curl/curl.h>
#include <cstdarg>
#include <map>
#include <set>
''' + HDR + '''
// libcurl replaced by a recorder
static std::vector<int> statuses;      // by attempt; -1: connection refused
static size_t sent = 0;
static std::set<long> opts;
static std::vector<std::set<long>> opts_of;
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURL* curl_easy_init() { opts.clear(); return reinterpret_cast<CURL*>(&sent); }
void curl_easy_cleanup(CURL*) {}
CURLcode curl_easy_setopt(CURL*, CURLoption o, ...) { opts.insert(o); return CURLE_OK; }
CURLcode curl_easy_perform(CURL*) {
  opts_of.push_back(opts);
  int s = statuses.at(sent++);
  return s < 0 ? CURLE_COULDNT_CONNECT : CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...) {
  va_list ap; 
  // the only use is the response code
  return CURLE_OK;
}
const char* curl_easy_strerror(CURLcode) { return "x"; }
struct curl_slist* curl_slist_append(struct curl_slist* l, const char*) { return l; }
void curl_slist_free_all(struct curl_slist*) {}
}
'''
CURL = CURL.replace('''CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...) {
  va_list ap; 
  // the only use is the response code
  return CURLE_OK;
}''', '''CURLcode curl_easy_getinfo(CURL*, CURLINFO i, ...) {
  va_list ap;
  va_start(ap, i);
  long* p = va_arg(ap, long*);
  va_end(ap);
  if (i == CURLINFO_RESPONSE_CODE) *p = statuses.at(sent - 1);
  return CURLE_OK;
}''') + '''
static HttpClientConfig config(bool external) {
  metatron::CertInfo ci{"/cert", "/key", "/ca", "app"};
  return HttpClientConfig{absl::Seconds(2), absl::Seconds(3), true, false, true, false, true, external, ci};
}
static std::unique_ptr<Config> cfg() {
  auto c = std::make_unique<Config>();
  c->meter_ttl = absl::Minutes(15);
  return c;
}
'''
SEEDS = [
 dict(id="uint-line-signed", property="P01", srcs=["server"], ska=True,
  edits=[["server/spectatord.cc", "value.u = std::strtoull(value_str, &last_char, 10);", "value.u = static_cast<uint64_t>(std::strtoll(value_str, &last_char, 10));"]],
  needs="a U line whose number is above 2^63-1",
  breaks="unsigned monotonic counters saturate at 2^63-1: the number on the line is not what the meter receives",
  demo=SRV + '''
int main() {
  std::string err;
  auto m = spectatord::get_measurement('U', "x:18446744073709551610", &err);
  CHECK(m && m->value.u == 18446744073709551610ULL);
  auto n = spectatord::get_measurement('U', "x:42", &err);
  CHECK(n && n->value.u == 42);
  return bad;
}
'''),
 dict(id="warning-as-error", property="P02", srcs=["server"], ska=True,
  edits=[["server/spectatord.cc", "  ++parsed_count;\n  if (parsed_count % 50000 == 0) {", "  if (!err_msg.empty()) {\n    return err_msg;\n  }\n  if (++parsed_count % 50000 == 0) {"]],
  needs="a line with characters after its number",
  breaks="such a line is reported as an error although its meter was updated",
  demo=SRV + '''
int main() {
  Registry r{cfg(), spectatord::Logger()};
  S s{&r};
  auto e = s.spectator("c:name:1x");
  double n = r.GetCounter("name")->Count();
  CHECK(e.has_value() == (n == 0));
  CHECK(!s.spectator("c:other:2"));
  CHECK(r.GetCounter("other")->Count() == 2);
  return bad;
}
'''),
 dict(id="parsed-after-error", property="P03", srcs=["server"], ska=True,
  edits=[["server/spectatord.cc", "    } else if (cfg.status_metrics_enabled) {\n      parsed_count_", "    } else if (err_msg.empty() && cfg.status_metrics_enabled) {\n      parsed_count_"]],
  needs="a datagram with a good line after a bad one",
  breaks="good lines after a failing one are not counted as parsed",
  demo=SRV + '''
int main() {
  Registry r{cfg(), spectatord::Logger()};
  S s{&r};
  CHECK(s.spectator("c:a:1\\nnonsense\\nc:b:1\\nc:c:1"));
  CHECK(r.GetCounter("spectatord.parsedCount")->Count() == 3);
  CHECK(r.GetCounter("spectatord.parseErrors")->Count() == 1);
  return bad;
}
'''),
 dict(id="statsd-m-at-end", property="P04", srcs=["server"], ska=True, san=ASAN,
  edits=[["server/spectatord.cc", "      if (*++p != 's') {", "      if (*++p != 's' && *p != '\\0') {"]],
  needs="a statsd text that ends right after |m",
  breaks="the parser steps over the terminating NUL",
  demo=SRV + '''
int main() {
  Registry r{cfg(), spectatord::Logger()};
  S s{&r};
  CHECK(!s.statsd("a.b:12|ms"));
  CHECK(s.statsd("a.b:12|m").has_value());
  return bad;
}
'''),
 dict(id="statsd-rate-trunc", property="P06", srcs=["server"], ska=True,
  edits=[["server/spectatord.cc", "      auto k = std::lround(1 / sampling_rate);\n      auto hist", "      auto k = static_cast<long>(1 / sampling_rate);\n      auto hist"]],
  needs="a histogram line with a rate whose inverse is not an integer and rounds up, such as 0.6",
  breaks="the number of repetitions is truncated instead of rounded",
  demo=SRV + '''
int main() {
  Registry r{cfg(), spectatord::Logger()};
  S s{&r};
  CHECK(!s.statsd("h:10|h|@0.6"));
  CHECK(r.GetDistributionSummary("h")->Count() == 2);
  CHECK(!s.statsd("i:10|h|@0.5"));
  CHECK(r.GetDistributionSummary("i")->Count() == 2);
  return bad;
}
'''),
 dict(id="smile-eighth-bit", property="P17", srcs=["meters", "spectator/smile.cc", "spectator/compressed_buffer.cc", "spectator/gzip.cc"],
  edits=[["spectator/smile.cc", "  i >>= 6U;\n  if (i <= 0x7F) {", "  i >>= 6U;\n  if (i <= 0xFF) {"]],
  needs="an integer from 4096 to 8191: a string table index or batch size in that range",
  breaks="a byte with its highest bit set ends the number early: the payload no longer decodes",
  demo=inc("spectator/smile.h", "spectator/gzip.h") + HDR + '''
int main() {
  for (size_t n : {size_t(15), size_t(40), size_t(4095), size_t(5000), size_t(8192), size_t(100000)}) {
    SmilePayload p;
    p.Init();
    p.Append(n);
    auto r = p.Result();
    std::vector<uint8_t> out(1 << 16);
    size_t len = out.size();
    CHECK(gzip_uncompress(out.data(), &len, r.data, r.size) == Z_OK);
    // ":)\\n" flags, array start, number, array end
    size_t i = 4;
    CHECK(out[i++] == 0xF8);
    uint64_t v = 0;
    if (out[i] >= 0xC0 && out[i] <= 0xDF) {
      v = out[i++] - 0xC0;
    } else {
      CHECK(out[i++] == 0x24);
      while (i < len && !(out[i] & 0x80)) v = (v << 7) | out[i++];
      v = (v << 6) | (out[i++] & 0x3F);
    }
    CHECK(v >> 1 == n);
    CHECK(i < len && out[i] == 0xF9);
  }
  return bad;
}
'''),
 dict(id="tags-copy-capacity", property="P09", srcs=["meters"], san=ASAN,
  edits=[["spectator/tags.h", "      U.capacity_ = size_;", "      U.capacity_ = o.U.capacity_;"]],
  needs="copying a set of nine or more tags that has room to spare, and adding to the copy",
  breaks="the copy claims more room than it has and writes past its allocation",
  demo=inc("spectator/id.h") + HDR + '''
int main() {
  Tags t;
  for (int i = 0; i < 9; ++i) t.add(std::string("k") + std::to_string(i), "v");
  Tags c{t};
  c.add("z", "1");
  CHECK(c.size() == 10);
  CHECK(t.size() == 9);
  return bad;
}
'''),
 dict(id="id-stale-hash", property="P10", srcs=["meters"],
  edits=[["spectator/id.h", "    Tags tags{GetTags()};\n    tags.add(key, value);\n    return Id(Name(), tags);", "    Id id{*this};\n    id.tags_.add(key, value);\n    return id;"]],
  needs="an identifier that was hashed (looked up) before a tag is added to it",
  breaks="the new identifier keeps the old one's hash: equal identities hash differently and get two meters",
  demo=inc("spectator/id.h") + HDR + '''
int main() {
  Id a{"name", Tags{{"a", "1"}}};
  std::hash<Id> h;
  auto before = h(a);
  (void)before;
  Id b = a.WithTag(intern_str("b"), intern_str("2"));
  Id c{"name", Tags{{"a", "1"}, {"b", "2"}}};
  CHECK(b == c);
  CHECK(h(b) == h(c));
  return bad;
}
'''),
 dict(id="timer-clamped-total", property="P27", srcs=["registry"], ska=True,
  edits=[["spectator/percentile_timer.h", "    timer_->Record(amount);\n    auto restricted = restrict(amount, min_, max_);", "    auto restricted = restrict(amount, min_, max_);\n    timer_->Record(restricted);"]],
  needs="an amount outside the timer's configured range",
  breaks="the plain timer gets the clamped amount",
  demo=inc("spectator/percentile_timer.h", "spectator/registry.h", "util/logger.h") + HDR + '''
int main() {
  auto c = std::make_unique<Config>();
  c->meter_ttl = absl::Minutes(15);
  Registry r{std::move(c), spectatord::Logger()};
  PercentileTimer t{&r, Id("t", Tags{}), absl::Milliseconds(1), absl::Seconds(10)};
  t.Record(absl::Seconds(5));
  CHECK(t.TotalTime() == 5000000000L);
  t.Record(absl::Seconds(60));
  CHECK(t.TotalTime() == 65000000000L);
  return bad;
}
'''),
 dict(id="deflate-finish-once", property="P31", srcs=["meters", "spectator/compressed_buffer.cc", "spectator/gzip.cc"],
  edits=[["spectator/compressed_buffer.cc", "  while (flush == Z_FINISH && err == Z_OK) {", "  if (flush == Z_FINISH && err == Z_OK) {"]],
  needs="more compressed output left at the end than one output chunk holds",
  breaks="the stream is ended before all output was written: the result is truncated",
  demo=inc("spectator/compressed_buffer.h", "spectator/gzip.h") + HDR + '''
int main() {
  for (size_t n : {size_t(10), size_t(100000)}) {
    CompressedBuffer b{1 << 20, 64, 64};
    b.Init();
    std::string s;
    uint32_t x = 1;
    for (size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; s.push_back(static_cast<char>(x >> 24)); }
    b.Append(std::string_view{s});
    auto r = b.Result();
    std::vector<uint8_t> out(n + 1000);
    size_t len = out.size();
    CHECK(gzip_uncompress(out.data(), &len, r.data, r.size) == Z_OK);
    CHECK(len == n && memcmp(out.data(), s.data(), n) == 0);
  }
  return bad;
}
'''),
 dict(id="udp-row-short", property="P32", srcs=["meters", "server/proc_utils.cc", "util/files.cc"], san=ASAN,
  edits=[["server/proc_utils.cc", "fields.size() < 17", "fields.size() < 16"]],
  needs="a row for the port with exactly 16 columns",
  breaks="a short row is not skipped: its missing column is read",
  demo=inc("server/proc_utils.h") + "#include <string>\n#include <optional>\n" + HDR.replace("using namespace spectator;", "namespace spectator {}") + '''
int main() {
  FILE* f = fopen("udp", "w");
  fprintf(f, "  sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode ref pointer drops\\n");
  fprintf(f, "  1: 00000000:04D2 00000000:0000 07 00000000:00000010 00:00000000 00000000 0 0 1 2 ptr\\n");
  fprintf(f, "  2: 00000000:04D2 00000000:0000 07 00000000:00000020 00:00000000 00000000 0 0 1 2 ptr 33\\n");
  fclose(f);
  auto i = spectatord::udp_info(1234, "udp");
  CHECK(i && i->num_dropped == 33 && i->rx_queue_bytes == 0x20);
  return bad;
}
'''),
 dict(id="url-two-left", property="P34", srcs=["spectator/strings.cc"], san=ASAN,
  edits=[["spectator/strings.cc", "  if ((url.end() - proto_end) < 3) {", "  if ((url.end() - proto_end) < 2) {"]],
  needs="a URL that ends with a colon and one more character",
  breaks="the search for the path starts past the end of the text",
  demo=inc("spectator/strings.h") + "#include <string_view>\n#include <string>\n" + HDR + '''
int main() {
  for (const char* t : {"http:/", "a:b", "http://h/p?q"}) {
    size_t n = strlen(t);
    char* b = static_cast<char*>(malloc(n));
    memcpy(b, t, n);
    auto r = PathFromUrl(std::string_view{b, n});
    CHECK(r.size() <= n);
    free(b);
  }
  return bad;
}
'''),
 dict(id="attempt-final", property="P21", srcs=["registry"], ska=True,
  edits=[["spectator/http_client.cc", "  entry.set_attempt(attempt_number, true);", "  entry.set_attempt(attempt_number, attempt_number == 2 || http_code / 100 == 2);"]],
  needs="a response that is neither a success nor retryable, such as 404",
  breaks="the only attempt is not marked as the final one",
  demo=CURL + '''
int main() {
  Registry r{cfg(), spectatord::Logger()};
  HttpClient c{&r, config(false)};
  statuses = {503, 404};
  auto resp = c.Get("http://x/p");
  CHECK(resp.status == 404);
  CHECK(sent == 2);
  int finals = 0, calls = 0;
  for (auto* t : r.Timers()) {
    if (t->MeterId().Name() != intern_str("ipc.client.call")) continue;
    ++calls;
    finals += t->MeterId().GetTags().at(intern_str("ipc.attempt.final")) == intern_str("true");
  }
  CHECK(calls == 2);
  CHECK(finals == 1);
  return bad;
}
'''),
 dict(id="retry-without-certs", property="P22", srcs=["registry"], ska=True,
  edits=[["spectator/http_client.cc", "  if (config_.external_enabled) {\n    curl.configure_metatron(config_);", "  if (config_.external_enabled && attempt_number == 0) {\n    curl.configure_metatron(config_);"]],
  needs="a retried request with external publishing enabled",
  breaks="retries go out without the client certificate and the verifier",
  demo=CURL + '''
int main() {
  Registry r{cfg(), spectatord::Logger()};
  HttpClient c{&r, config(true)};
  statuses = {503, 200};
  auto resp = c.Get("http://x/p");
  CHECK(resp.status == 200);
  CHECK(opts_of.size() == 2);
  for (auto& o : opts_of) CHECK(o.count(CURLOPT_SSLCERT) && o.count(CURLOPT_SSLKEY) && o.count(CURLOPT_CAINFO) && o.count(CURLOPT_SSL_VERIFYPEER) && o.count(CURLOPT_SSL_CTX_FUNCTION));
  return bad;
}
'''),
 dict(id="client-errors-as-http", property="P20", srcs=["registry"], ska=True,
  edits=[["spectator/publisher.h", "http_code > 200 && http_code < 500", "http_code > 200 && http_code < 400"]],
  needs="an aggregator answer of 4xx with a validation result",
  breaks="4xx validation results are counted as dropped by HTTP errors",
  demo=inc("spectator/registry.h", "spectator/publisher.h", "util/logger.h") + HDR + '''
struct P : Publisher<Registry> {
  explicit P(Registry* r) : Publisher<Registry>(r) {}
  using Publisher<Registry>::handle_aggr_response;
};
int main() {
  auto c = std::make_unique<Config>();
  c->meter_ttl = absl::Minutes(15);
  Registry r{std::move(c), spectatord::Logger()};
  P p{&r};
  tsl::hopscotch_set<std::string> e;
  HttpResponse resp{400, "{\\"errorCount\\": 2, \\"message\\": [\\"x\\"]}", {}};
  auto n = p.handle_aggr_response(resp, 10, &e);
  CHECK(n.first == 8);
  CHECK(n.second == 2);
  return bad;
}
'''),
 dict(id="parsed-when-disabled", property="P25", srcs=["server"], ska=True,
  edits=[["server/spectatord.cc", "    if (maybe_err) {\n      if (cfg.status_metrics_enabled) {\n        parse_errors_->Increment();", "    if (maybe_err) {\n      if (cfg.status_metrics_enabled || err_msg.empty()) {\n        parse_errors_->Increment();"]],
  needs="a failing line while status metrics are disabled",
  breaks="the daemon's own parse error counter is updated although status metrics are disabled",
  demo=SRV + '''
int main() {
  Registry r{cfg(false), spectatord::Logger()};
  S s{&r};
  CHECK(s.spectator("c:a:1\\nnonsense\\nc:b:1"));
  CHECK(r.GetCounter("spectatord.parseErrors")->Count() == 0);
  CHECK(r.GetCounter("a")->Count() == 1);
  return bad;
}
'''),
]
