"""changes to the line parsers: spectatord lines (P01, P02) and statsd lines (P06, P02)"""
import json
F = "server/spectatord.cc"
T = []


def t(name, old, new, checks, expect=None, all=False, edits=None):
    d = {"name": name, "file": F, "old": old, "new": new, "checks": checks}
    if expect:
        d["expect"] = expect
    if all:
        d["all"] = True
    if edits:
        d["edits"] = edits
        d.pop("old"), d.pop("new")
    T.append(d)


b1 = lambda n, o, w, **k: t(n, o, w, ["P01"], **k)
b2 = lambda n, o, w, **k: t(n, o, w, ["P02"], **k)
b6 = lambda n, o, w, **k: t(n, o, w, ["P06"], **k)
q = lambda n, o, w, **k: t(n, o, w, ["P01", "P02", "P06"], expect="quiet", **k)

# ---- spectatord lines
b1("age-ms", "static_cast<int64_t>(measurement->value.d * 1e9));\n      }\n      break;\n    case 'c'", "static_cast<int64_t>(measurement->value.d * 1e6));\n      }\n      break;\n    case 'c'")
b1("age-zero", "if (measurement->value.d == 0) {", "if (measurement->value.d <= 0) {")
b1("age-zero2", "if (measurement->value.d == 0) {", "if (measurement->value.d < 0) {")
b1("c-int", "registry_->GetCounter(measurement->id)->Add(measurement->value.d);", "registry_->GetCounter(measurement->id)->Add(static_cast<int64_t>(measurement->value.d));")
b1("c-C", "case 'c':\n      registry_->GetCounter(measurement->id)->Add(measurement->value.d);\n      break;\n    case 'C':", "case 'c':\n    case 'C':")
b1("d-perc", "registry_->GetDistributionSummary(measurement->id)->Record(measurement->value.d);", "perc_ds_.get_or_create(registry_, measurement->id)->Record(static_cast<int64_t>(measurement->value.d));")
b1("d-abs", "registry_->GetDistributionSummary(measurement->id)->Record(measurement->value.d);", "registry_->GetDistributionSummary(measurement->id)->Record(std::abs(measurement->value.d));")
b1("D-i32", "static_cast<int64_t>(measurement->value.d));\n      break;\n    case 'g'", "static_cast<int32_t>(measurement->value.d));\n      break;\n    case 'g'")
b1("g-ttlmin", "absl::Seconds(extra)", "absl::Minutes(extra)")
b1("g-ttlignored", "if (extra > 0) {\n        registry_->GetGauge", "if (extra > 1) {\n        registry_->GetGauge")
b1("g-ttlalways", "registry_->GetGauge(measurement->id)->Set(measurement->value.d);", "registry_->GetGauge(measurement->id, absl::Minutes(15))->Set(measurement->value.d);")
b1("m-gauge", "registry_->GetMaxGauge(measurement->id)->Update(measurement->value.d);", "registry_->GetGauge(measurement->id)->Set(measurement->value.d);")
b1("m-set", "registry_->GetMaxGauge(measurement->id)->Update(measurement->value.d);", "registry_->GetMaxGauge(measurement->id)->Set(measurement->value.d);")
b1("t-us", "auto nanos = static_cast<int64_t>(measurement->value.d * 1e9);\n        registry_->GetTimer", "auto nanos = static_cast<int64_t>(measurement->value.d * 1e6);\n        registry_->GetTimer")
b1("t-trunc", "auto nanos = static_cast<int64_t>(measurement->value.d * 1e9);\n        registry_->GetTimer", "auto nanos = static_cast<int64_t>(measurement->value.d) * 1000000000;\n        registry_->GetTimer")
b1("T-timer", "perc_timers_.get_or_create(registry_, measurement->id)->Record(", "registry_->GetTimer(measurement->id)->Record(")
b1("T-micro", "std::chrono::nanoseconds(nanos));\n      }\n      break;\n    case 'U'", "std::chrono::microseconds(nanos));\n      }\n      break;\n    case 'U'")
b1("U-d", "registry_->GetMonotonicCounterUint(measurement->id)->Set(measurement->value.u);", "registry_->GetMonotonicCounterUint(measurement->id)->Set(static_cast<uint64_t>(measurement->value.d));")
b1("U-strtod", "if (type == 'U') {\n    value.u = std::strtoull(value_str, &last_char, 10);\n  } else {", "if (type == 'U') {\n    value.u = static_cast<uint64_t>(std::strtod(value_str, &last_char));\n  } else {")
b1("U-base0", "std::strtoull(value_str, &last_char, 10)", "std::strtoull(value_str, &last_char, 0)")
b1("U-strtoll", "value.u = std::strtoull(value_str, &last_char, 10);", "value.u = std::strtoll(value_str, &last_char, 10);")
b1("X-us", "auto nanos = extra * 1000 * 1000;", "auto nanos = extra * 1000;")
b1("X-u", "->Set(measurement->value.d, nanos);", "->Set(measurement->value.u, nanos);")
b1("strtof", "value.d = std::strtod(value_str, &last_char);", "value.d = std::strtof(value_str, &last_char);")
b1("extra-base0", "extra = strtoll(p, &end_ttl, 10);", "extra = strtoll(p, &end_ttl, 0);")
b1("extra-one", "if (extra <= 0) {\n      auto idx", "if (extra <= 1) {\n      auto idx")
b1("name-comma", "auto name = measurement_str.substr(0, pos);", "auto name = measurement_str.substr(0, pos - 1);")
b1("name-find", "auto pos = measurement_str.find_first_of(\",:\");\n  if", "auto pos = measurement_str.find(':');\n  if")
b1("name-last", "auto pos = measurement_str.find_first_of(\",:\");\n  if", "auto pos = measurement_str.find_last_of(\",:\");\n  if")
b1("key-off", "auto key = measurement_str.substr(pos, k_pos - pos);", "auto key = measurement_str.substr(pos, k_pos);")
b1("val-colon", "auto v_pos = measurement_str.find_first_of(\",:\", k_pos);", "auto v_pos = measurement_str.find(':', k_pos);")
b1("val-off", "auto val = measurement_str.substr(k_pos, v_pos - k_pos);", "auto val = measurement_str.substr(k_pos, v_pos - k_pos - 1);")
b1("kv-swap", "tags.add(key, val);", "tags.add(val, key);")
b1("tag-once", "      tags.add(key, val);\n      pos = v_pos;", "      if (val != key) tags.add(key, val);\n      pos = v_pos;")
b1("tag-twice", "tags.add(key, val);", "tags.add(key, val); tags.add(val, val);")
b1("tags-lost", "return measurement{spectator::Id{name_ref, tags}, value};", "return measurement{spectator::Id{name_ref, spectator::Tags{}}, value};")
b1("warn-error", "if (!err_msg.empty()) {\n    // got a warning", "if (!err_msg.empty()) {\n    return err_msg;\n    // got a warning")
b1("no-T", "    case 'T':\n      {", "    case 'P':\n      {")
b1("long-name", "if (pos == std::string_view::npos || pos == 0) {\n    *err_msg = \"Missing name\";", "if (pos == std::string_view::npos || pos == 0 || pos > 200) {\n    *err_msg = \"Missing name\";")
b1("value-pos", "  ++pos;\n  auto value_str = measurement_str.begin() + pos;", "  pos = measurement_str.rfind(':') + 1;\n  auto value_str = measurement_str.begin() + pos;")
b1("nan-reject", "  if (last_char == value_str) {", "  if (last_char == value_str || (type != 'U' && value.d < 0)) {")
# ---- P02
b2("X-latecheck", "      if (extra <= 0) {\n        return \"Missing timestamp for monotonic sampled source\";\n      } else {", "      registry_->GetMonotonicSampled(measurement->id);\n      if (extra <= 0) {\n        return \"Missing timestamp for monotonic sampled source\";\n      } else {")
b2("X-nocheck", "      if (extra <= 0) {\n        return \"Missing timestamp for monotonic sampled source\";\n      } else {", "      if (extra < 0) {\n        return \"Missing timestamp for monotonic sampled source\";\n      } else {")
b2("sep-any", "  if (*p != ':') {\n    auto msg = fmt::format(\"Expecting", "  if (*p == '\\0') {\n    auto msg = fmt::format(\"Expecting")
b2("num-none", "  if (last_char == value_str) {\n    *err_msg", "  if (*value_str == '\\0') {\n    *err_msg")
b2("name-empty", "if (pos == std::string_view::npos || pos == 0) {\n    *err_msg = \"Missing name\";", "if (pos == std::string_view::npos) {\n    *err_msg = \"Missing name\";")
b2("ttl-neg", "      if (type == 'g') {\n        auto msg", "      if (type == 'g' && extra < 0) {\n        auto msg")
q("q-ttlX", "} else if (type == 'X') {\n        auto msg", "} else if (type == 'X' && extra < 0) {\n        auto msg", )
b2("fall", "registry_->GetMaxGauge(measurement->id)->Update(measurement->value.d);\n      break;", "registry_->GetMaxGauge(measurement->id)->Update(measurement->value.d);")
b2("default-ok", "      return fmt::format(\"Unknown type: {}\", type);", "      registry_->GetCounter(measurement->id)->Increment(); break;")
b2("default-count", "      return fmt::format(\"Unknown type: {}\", type);", "      registry_->GetCounter(\"spectatord.unknownType\")->Increment();\n      return fmt::format(\"Unknown type: {}\", type);")
b2("default-silent", "      return fmt::format(\"Unknown type: {}\", type);", "      Logger()->info(\"Unknown type: {}\", type);\n      break;")
b2("twice", "registry_->GetCounter(measurement->id)->Add(measurement->value.d);", "{ auto ctr = registry_->GetCounter(measurement->id); ctr->Add(measurement->value.d); if (extra > 0) ctr->Increment(); }")
b2("late-error", "  ++parsed_count;\n", "  if (!err_msg.empty()) return err_msg;\n  ++parsed_count;\n")
b2("stats-badrate", "      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {", "      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 10)) {")
b2("stats-norate", "      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {", "      if (!(sampling_rate > 0 && sampling_rate <= 1)) {")
b2("stats-name", "if (p == nullptr || p == buffer) {\n    return \"Invalid format: name is required\";", "if (p == nullptr) {\n    return \"Invalid format: name is required\";")
b2("stats-noval", "  if (last_char == p) {\n    return fmt::format(\"Unable to parse value starting", "  if (*p == '\\0') {\n    return fmt::format(\"Unable to parse value starting")
b2("stats-bar", "  if (*p != '|') {\n    return fmt::format(\"Invalid format. Expected", "  if (*p == '\\0') {\n    return fmt::format(\"Invalid format. Expected")
b2("stats-ms", "      if (*++p != 's') {", "      if (*++p == '\\0') {")
b2("stats-default", "      return fmt::format(\"Invalid type for name {} ({})\", name, buffer);", "      type = StatsdMetricType::Counter; break;")
b2("stats-fall", "    case 'g':\n      type = StatsdMetricType::Gauge;\n      break;\n", "    case 'g':\n    case 'G':\n      type = StatsdMetricType::Gauge;\n      break;\n")
b2("stats-early", "      if (last_char == p || !(sampling_rate > 0", "      if (last_char == p) registry_->GetCounter(\"spectatord.badRate\")->Increment();\n      if (last_char == p || !(sampling_rate > 0")
b2("stats-setcount", "      Logger()->info(\"Ignoring set cardinality metric for {}\", id);", "      registry->GetCounter(std::move(id))->Increment();")
# ---- statsd
b6("rate-mul", "->Add(value / sampling_rate);", "->Add(value * sampling_rate);")
b6("rate-none", "->Add(value / sampling_rate);", "->Add(value);")
b6("g-rated", "registry->GetGauge(std::move(id))->Set(value);", "registry->GetGauge(std::move(id))->Set(value / sampling_rate);")
b6("h-once", "for (auto i = 0; i < k; ++i) {\n        hist->Record(value);", "for (auto i = 0; i < 1; ++i) {\n        hist->Record(value);")
b6("h-le", "for (auto i = 0; i < k; ++i) {\n        hist->Record(value);", "for (auto i = 0; i <= k; ++i) {\n        hist->Record(value);")
b6("h-from1", "for (auto i = 0; i < k; ++i) {\n        hist->Record(value);", "for (auto i = 1; i < k; ++i) {\n        hist->Record(value);")
b6("h-rated", "hist->Record(value);", "hist->Record(value / sampling_rate);")
b6("h-floor", "case StatsdMetricType::Histogram: {\n      auto k = std::lround(1 / sampling_rate);", "case StatsdMetricType::Histogram: {\n      auto k = static_cast<long>(1 / sampling_rate);")
b6("h-mul", "case StatsdMetricType::Histogram: {\n      auto k = std::lround(1 / sampling_rate);", "case StatsdMetricType::Histogram: {\n      auto k = std::lround(value / sampling_rate);")
b6("ms-us", "std::lround(value * 1e6)", "std::lround(value * 1e3)")
b6("ms-trunc", "std::lround(value * 1e6)", "std::lround(value) * 1000000")
b6("ms-once", "      for (auto i = 0; i < k; ++i) {\n        timer->Record(ns);\n      }", "      timer->Record(ns);")
b6("ms-hist", "      type = StatsdMetricType::Timing;", "      type = StatsdMetricType::Histogram;")
b6("hc", "      type = StatsdMetricType::Histogram;\n      break;\n    case 's'", "      type = StatsdMetricType::Counter;\n      break;\n    case 's'")
b6("rate-one", "!(sampling_rate > 0 && sampling_rate <= 1)", "!(sampling_rate > 0 && sampling_rate < 1)")
b6("rate-zero", "!(sampling_rate > 0 && sampling_rate <= 1)", "!(sampling_rate >= 0 && sampling_rate <= 1)")
b6("rate-nan", "!(sampling_rate > 0 && sampling_rate <= 1)", "sampling_rate <= 0 || sampling_rate > 1")
b6("rate-ignored", "      sampling_rate = std::strtod(p, &last_char);", "      sampling_rate = 1.0; std::strtod(p, &last_char);")
b6("name-1", "std::string_view name{buffer, static_cast<size_t>(p - buffer)};", "std::string_view name{buffer, static_cast<size_t>(p - buffer - 1)};")
b6("name-rchr", "const char* p = std::strchr(buffer, ':');", "const char* p = std::strrchr(buffer, ':');")
b6("tag-value", "value = \"1\";", "value = \"true\";")
b6("tag-last", "      if (!add_tag(&tags, begin_key, end_key, begin_value, p)) {\n        return fmt::format(\"Invalid tags for name={}\", name);\n      }\n    }\n  }", "      if (begin_value != nullptr && !add_tag(&tags, begin_key, end_key, begin_value, p)) {\n        return fmt::format(\"Invalid tags for name={}\", name);\n      }\n    }\n  }")
b6("tag-bvstay", "          begin_value = nullptr;\n          begin_key = ++p;", "          begin_key = ++p;")
b6("tag-bkstay", "          begin_value = nullptr;\n          begin_key = ++p;", "          begin_value = nullptr;\n          ++p;")
b6("tag-bkoff", "          begin_key = ++p;\n        }", "          begin_key = p++;\n        }")
b6("tag-norate", "    // maybe tags\n    if (*p == '#') {", "    // maybe tags\n    if (sampling_rate == 1.0 && *p == '#') {")
b6("no-set", "    case 's':\n      type = StatsdMetricType::Set;\n      break;\n", "")
b6("int-value", "auto value = std::strtod(p, &last_char);", "auto value = static_cast<double>(std::strtol(p, &last_char, 10));")
b6("neg-gauge", "      registry->GetGauge(std::move(id))->Set(value);", "      if (value >= 0) registry->GetGauge(std::move(id))->Set(value);")
# ---- behaviour preserved
q("q-if", "  switch (type) {\n    case 'A':\n      if (measurement->value.d == 0) {", "  const auto& id = measurement->id;\n  switch (type) {\n    case 'A':\n      if (!(measurement->value.d != 0)) {")
q("q-meas", "registry_->GetCounter(measurement->id)->Add(measurement->value.d);", "{ auto counter = registry_->GetCounter(measurement->id); auto amount = measurement->value.d; counter->Add(amount); }")
q("q-secs", "static_cast<int64_t>(measurement->value.d * 1e9));\n      }\n      break;\n    case 'c'", "static_cast<int64_t>(1000000000.0 * measurement->value.d));\n      }\n      break;\n    case 'c'")
q("q-nanos", "auto nanos = extra * 1000 * 1000;", "auto nanos = extra * 1000000L;")
q("q-ttl", "if (extra > 0) {\n        registry_->GetGauge", "if (extra >= 1) {\n        registry_->GetGauge")
q("q-dur", "absl::Seconds(extra)", "absl::Milliseconds(extra * 1000)")
q("q-sv", "  auto name = measurement_str.substr(0, pos);", "  std::string_view name{measurement_str.data(), pos};")
q("q-npos0", "if (pos == std::string_view::npos || pos == 0) {\n    *err_msg = \"Missing name\";", "if (pos == 0 || pos == std::string_view::npos) {\n    *err_msg = \"Missing name\";")
q("q-sep", "  if (*p != ':') {\n    auto msg = fmt::format(\"Expecting", "  const bool separated = *p == ':';\n  if (!separated) {\n    auto msg = fmt::format(\"Expecting")
q("q-helper", None, None, edits=[["void Server::Start() {", "static void add_counter(spectator::Registry* r, const measurement& m) { r->GetCounter(m.id)->Add(m.value.d); }\n\nvoid Server::Start() {"],
                                 ["registry_->GetCounter(measurement->id)->Add(measurement->value.d);", "add_counter(registry_, *measurement);"]])
q("q-ifchain", "registry_->GetMaxGauge(measurement->id)->Update(measurement->value.d);\n      break;\n    case 't'", "{ auto& m = *measurement; registry_->GetMaxGauge(m.id)->Update(m.value.d); }\n      break;\n    case 't'")
q("q-while", "for (auto i = 0; i < k; ++i) {\n        hist->Record(value);\n      }", "auto n = k;\n      while (n-- > 0) {\n        hist->Record(value);\n      }")
q("q-from1", "for (auto i = 0; i < k; ++i) {\n        hist->Record(value);\n      }", "for (long i = 1; i <= k; i++) {\n        hist->Record(value);\n      }")
q("q-rate", "!(sampling_rate > 0 && sampling_rate <= 1)", "!(0 < sampling_rate) || !(sampling_rate <= 1.0)")
q("q-inv", "->Add(value / sampling_rate);", "->Add(value * (1 / sampling_rate));")
q("q-switch", "switch (char_type) {", "switch (*p) {")
q("q-size", "std::string_view name{buffer, static_cast<size_t>(p - buffer)};", "auto len = p - buffer;\n  std::string_view name{buffer, static_cast<size_t>(len)};")
q("q-addtag", None, None, edits=[["          begin_value = nullptr;\n          begin_key = ++p;", "          ++p;\n          begin_key = p;\n          begin_value = nullptr;"]])
q("q-colon", "          end_key = p;\n          begin_value = ++p;", "          end_key = p;\n          ++p;\n          begin_value = p;")
q("q-log", "      registry->GetGauge(std::move(id))->Set(value);", "      Logger()->debug(\"gauge {}\", value);\n      registry->GetGauge(std::move(id))->Set(value);")
q("q-idfirst", "  auto name_ref = spectator::intern_str(name);\n  return measurement{spectator::Id{name_ref, tags}, value};", "  spectator::Id id{spectator::intern_str(name), std::move(tags)};\n  return measurement{std::move(id), value};")
q("q-isU", "  if (type == 'U') {\n    value.u = std::strtoull", "  const auto is_uint = type == 'U';\n  if (is_uint) {\n    value.u = std::strtoull")
q("q-eqnpos", "if (v_pos == std::string_view::npos) {", "if (v_pos >= measurement_str.size()) {")
q("q-loop", "    while (measurement_str[pos] != ':') {\n      ++pos;", "    while (true) {\n      if (measurement_str[pos] == ':') break;\n      ++pos;")
json.dump(T, open('/tmp/p01.json', 'w'), indent=1)
