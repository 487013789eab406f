import json
F = "server/spectatord.cc"
T = []
def t(name, old, new, expect=None, **k):
    d = {"name": name, "file": F, "old": old, "new": new, "checks": ["P04"]}
    if expect: d["expect"] = expect
    d.update(k); T.append(d)

# --- breaking
t("null-write", "    if (newline != nullptr) {\n      *newline = '\\0';\n    }\n", "    *newline = '\\0';\n")
t("newline-skip", "    while (*++newline == '\\n') {\n    }\n    p = newline;", "    p = newline + 1;\n    while (*p++ == '\\n') {\n    }\n")
t("newline-nullcheck", "    if (newline == nullptr) {\n      break;\n    }\n    // skip", "    if (newline == nullptr) newline = p + std::strlen(p);\n    // skip")
t("type-empty-ok", "      char_type = *p", "      char_type = *p", "quiet") if False else None
t("ms-skip", "      if (*++p != 's') {", "      p += 2;\n      if (p[-1] != 's') {")
t("ms-skip2", "      if (*++p != 's') {\n        return fmt::format(\"Invalid metric type for {}\", buffer);\n      }\n      break;", "      ++p;\n      break;")
t("type-default-skip", "  ++p;\n  auto sampling_rate = 1.0;", "  p += 2;\n  auto sampling_rate = 1.0;\n  if (p[-1] == '|') --p;")
t("tag-colon-skip", "          end_key = p;\n          begin_value = ++p;", "          end_key = p;\n          begin_value = ++p;\n          ++p;")
t("tag-comma-first", "      while (*p != '\\0') {\n        ++p;\n        if (*p == ':') {", "      while (*p != '\\0') {\n        p += 2;\n        if (*p == ':') {")
t("tag-do", "      while (*p != '\\0') {\n        ++p;", "      do {\n        ++p;", edits=[["          begin_value = nullptr;\n          begin_key = ++p;\n        }\n      }\n", "          begin_value = nullptr;\n          begin_key = ++p;\n        }\n      } while (*p != '\\0');\n"]])
t("stale-value", "          begin_value = nullptr;\n          begin_key = ++p;", "          begin_key = ++p;")
t("no-pos-check", "        if (pos < measurement_str.size() && measurement_str[pos] == ':') break;", "        if (measurement_str[pos] == ':' || measurement_str[pos + 1] == ':') break;")
t("value-after-npos", "  if (pos == std::string_view::npos || pos == 0) {", "  if (pos == 0) {")
t("vpos-npos", "      if (v_pos == std::string_view::npos) {\n        *err_msg = \"Missing value\";\n        return {};\n      }\n", "      if (v_pos == std::string_view::npos) v_pos = measurement_str.size();\n", "quiet")
t("no-sep-check", "  if (*p != ':') {\n    auto msg = fmt::format(\"Expecting separator ':' at index {}\", p - buffer);\n    Logger()->info(fmt::format(\"Parse error for '{}': {}\", buffer, msg));\n    return msg;\n  }\n  ++p;", "  ++p;")
t("ttl-skip", "    p = end_ttl;\n", "    p = end_ttl + 1;\n    if (p[-1] == ' ') ++p; else --p;\n")
t("ttl-skip2", "    p = end_ttl;\n", "    p = end_ttl + 1;\n    if (*p == ' ') ++p; else --p;\n")
t("statsd-name", "  if (p == nullptr || p == buffer) {", "  if (p == buffer) {")
t("statsd-bar", "  if (*p != '|') {\n    return fmt::format(\"Invalid format. Expected | starting at {}\", p);\n  }\n  ++p;", "  ++p;")
t("rate-bar", "      if (*p == '|') {\n        ++p;\n      }\n    }\n    // maybe tags", "      ++p;\n    }\n    // maybe tags")
t("empty-line", "  // skip empty lines\n  while (*p == '\\n') {\n    ++p;\n  }\n", "")
t("empty-line2", "    while (*++newline == '\\n') {\n    }\n    p = newline;", "    p = newline + 1;")
t("last-char", "  if (*last_char != '\\0' && std::isspace(*last_char) == 0) {", "  if (last_char[1] != '\\0' && std::isspace(*last_char) == 0) {")
t("write-term", "    if (newline != nullptr) {\n      *newline = '\\0';\n    }\n", "    if (newline == nullptr) newline = p + std::strlen(p);\n    newline[1] = '\\0';\n    *newline = '\\0';\n")
t("semicolon-loop", "  // get name (tags are", "  { size_t i = 0; while (measurement_str.data()[i] != ':') ++i; }\n  // get name (tags are")
# --- preserving
t("q-while", "    while (*++newline == '\\n') {\n    }\n    p = newline;", "    p = newline + 1;\n    while (*p == '\\n') {\n      p++;\n    }\n", "quiet")
t("q-for", "  while (*p == '\\n') {\n    ++p;\n  }\n  std::string err_msg;", "  for (; *p == '\\n'; p++) {\n  }\n  std::string err_msg;", "quiet")
t("q-index", "  while (*p == '\\n') {\n    ++p;\n  }\n  std::string err_msg;", "  size_t i0 = 0;\n  while (buffer[i0] == '\\n') {\n    ++i0;\n  }\n  p = buffer + i0;\n  std::string err_msg;", "quiet")
t("q-memchr", "  const char* p = std::strchr(buffer, ':');", "  const char* p = buffer;\n  while (*p != '\\0' && *p != ':') ++p;\n  if (*p == '\\0') p = nullptr;", "quiet")
t("q-strlen-end", "      while (*p != '\\0') {\n        ++p;", "      const char* const stop = p + std::strlen(p);\n      while (p < stop) {\n        ++p;", "quiet")
t("q-helper", "  auto name = measurement_str.substr(0, pos);", "  auto first = [&](size_t n) { return measurement_str.substr(0, n); };\n  auto name = first(pos);", "quiet")
t("q-substr-tag", "      auto key = measurement_str.substr(pos, k_pos - pos);", "      const auto key_len = k_pos - pos;\n      std::string_view key{measurement_str.data() + pos, key_len};", "quiet")
t("q-data", "  auto value_str = measurement_str.begin() + pos;", "  const char* value_str = &measurement_str[pos];", "quiet")
t("q-first-line-helper", "    char* newline = std::strchr(p, '\\n');\n", "    char* newline = nullptr;\n    for (char* q = p; *q != '\\0'; ++q) {\n      if (*q == '\\n') {\n        newline = q;\n        break;\n      }\n    }\n", "quiet")
t("q-loop-do", "  while (*p != '\\0') {\n    char* newline", "  for (; *p != '\\0';) {\n    char* newline", "quiet")
t("q-sv-tags", "      const char* begin_key = p;\n      const char* end_key = nullptr;", "      const char* begin_key = p;\n      const char* end_key = begin_key;", "quiet")
t("q-advance", "  ++p;\n  auto sampling_rate = 1.0;", "  p = p + 1;\n  double sampling_rate{1};", "quiet")
json.dump(T, open("/tmp/p04.json", "w"))
