import json
B=[]
SP="spectator/string_pool.cc"; SH="spectator/string_pool.h"; SI="spectator/string_intern.h"
def bad(name,old,new,file=SP,checks="P08",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=SP,checks="P08",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("gen-space","  charsAllowed['^'] = '^';","  charsAllowed['^'] = '^';\n  charsAllowed[' '] = ' ';",file="tools/gen_valid_chars.cc")
bad("gen-Z","ch <= 'Z'; ++ch","ch < 'Z'; ++ch",file="tools/gen_valid_chars.cc")
bad("gen-high","  for (int i = 0; i < 256; ++i) {","  for (int i = 0; i < 255; ++i) {",file="tools/gen_valid_chars.cc")
bad("nosan","copy[i] = kAtlasChars[ch];","copy[i] = string[i];")
bad("signed","auto ch = static_cast<uint_fast8_t>(string[i]);","auto ch = static_cast<int>(string[i]);")
bad("noterm","  copy[len] = '\\0';\n","")
bad("term-1","  copy[len] = '\\0';\n","  copy[len - 1] = '\\0';\n")
bad("from1","for (auto i = 0u; i < len; ++i) {","for (auto i = 1u; i < len; ++i) {")
bad("upto-1","for (auto i = 0u; i < len; ++i) {","for (auto i = 0u; i + 1 < len; ++i) {")
bad("le","for (auto i = 0u; i < len; ++i) {","for (auto i = 0u; i <= len; ++i) {")
bad("alloc","malloc(len + 1)","malloc(len)")
bad("dangkey","  s.s = copy;\n","")
bad("retref","  return added.first->second;","  return ref;")
bad("freealways","    free(copy);\n  }\n","  }\n  if (len > 64) free(copy);\n")
bad("freeinv","  if (added.second) {\n    stats_.alloc_size += len + 1;","  if (!added.second) {\n    stats_.alloc_size += len + 1;")
bad("assign","auto added = table_.insert({s, ref});","auto added = table_.insert_or_assign(s, ref);")
bad("evict","  auto* copy = static_cast<char*>(malloc(len + 1));","  if (table_.size() > 100000) table_.clear();\n  auto* copy = static_cast<char*>(malloc(len + 1));")
bad("staticpool","  static auto* the_pool = new StringPool();\n  return *the_pool;","  static StringPool the_pool;\n  return the_pool;")
bad("unlocked","  absl::MutexLock lock(&table_mutex_);\n  String s{string, len};\n  auto it = table_.find(s);\n  if (it != table_.end()) {\n    stats_.hits++;\n    return it->second;\n  }\n","  String s{string, len};\n  auto it = table_.find(s);\n  if (it != table_.end()) {\n    return it->second;\n  }\n  absl::MutexLock lock(&table_mutex_);\n")
bad("cmp-len","    if (s1.len != s2.len) return false;\n","",file=SH)
bad("cmp-8","std::memcmp(s1.s, s2.s, s1.len) == 0","std::memcmp(s1.s, s2.s, std::min<size_t>(s1.len, 64)) == 0",file=SH)
bad("hash-ptr","return XXH3_64bits(str.s, str.len);","return std::hash<const char*>{}(str.s);",file=SH)
bad("str-strlen","return the_str_pool().Intern(string.c_str(), string.length());","return the_str_pool().Intern(string.c_str());")
bad("sv-strlen","return the_str_pool().Intern(string.data(), string.length());","return the_str_pool().Intern(string.data());")
bad("cstr-len","return Intern(string, std::strlen(string));","return Intern(string, std::strlen(string) + 1);",file=SH)
bad("fastref","auto intern_str(const char* string) -> StrRef {\n  return the_str_pool().Intern(string);","auto intern_str(const char* string) -> StrRef {\n  if (*string == 0) return StrRef{};\n  return the_str_pool().Intern(string);")
bad("len16","  String s{string, len};","  String s{string, len & 0xFFFF};")
quiet("while","  for (auto i = 0u; i < len; ++i) {\n    auto ch = static_cast<uint_fast8_t>(string[i]);\n    copy[i] = kAtlasChars[ch];\n  }","  size_t i = 0;\n  while (i != len) {\n    copy[i] = kAtlasChars[static_cast<unsigned char>(string[i])];\n    i++;\n  }")
quiet("helper","auto StringPool::Intern(const char* string, size_t len) noexcept -> StrRef {","static auto sanitized(const char* string, size_t len) -> char* {\n  auto* copy = static_cast<char*>(malloc(len + 1));\n  for (size_t i = 0; i < len; ++i) {\n    auto ch = static_cast<uint8_t>(string[i]);\n    copy[i] = kAtlasChars.at(ch);\n  }\n  copy[len] = 0;\n  return copy;\n}\n\nauto StringPool::Intern(const char* string, size_t len) noexcept -> StrRef {",edits=[[SP,"auto StringPool::Intern(const char* string, size_t len) noexcept -> StrRef {","static auto sanitized(const char* string, size_t len) -> char* {\n  auto* copy = static_cast<char*>(malloc(len + 1));\n  for (size_t i = 0; i < len; ++i) {\n    auto ch = static_cast<uint8_t>(string[i]);\n    copy[i] = kAtlasChars.at(ch);\n  }\n  copy[len] = 0;\n  return copy;\n}\n\nauto StringPool::Intern(const char* string, size_t len) noexcept -> StrRef {"],[SP,"  auto* copy = static_cast<char*>(malloc(len + 1));\n  for (auto i = 0u; i < len; ++i) {\n    auto ch = static_cast<uint_fast8_t>(string[i]);\n    copy[i] = kAtlasChars[ch];\n  }\n  copy[len] = '\\0';\n","  auto* copy = sanitized(string, len);\n"]])
quiet("early","  if (added.second) {\n    stats_.alloc_size += len + 1;  // null terminator\n    stats_.misses++;\n    stats_.table_size++;\n  } else {\n    // it's a cache hit (invalid chars made the first lookup fail)\n    stats_.hits++;\n    free(copy);\n  }\n  return added.first->second;","  if (!added.second) {\n    stats_.hits++;\n    free(copy);\n    return added.first->second;\n  }\n  stats_.alloc_size += len + 1;\n  stats_.misses++;\n  stats_.table_size++;\n  return ref;")
quiet("cmpand","    if (s1.len != s2.len) return false;\n    return std::memcmp(s1.s, s2.s, s1.len) == 0;","    return s1.len == s2.len && memcmp(s2.s, s1.s, s2.len) == 0;",file=SH)
quiet("svfwd","  return the_str_pool().Intern(string.c_str(), string.length());","  return intern_str(std::string_view{string});",edits=[[SP,"  return the_str_pool().Intern(string.c_str(), string.length());","  return the_str_pool().Intern(string.data(), string.size());"]])
quiet("poolref","  static auto* the_pool = new StringPool();\n  return *the_pool;","  static StringPool& the_pool = *new StringPool();\n  return the_pool;")
quiet("eqeq","  if (it != table_.end()) {\n    stats_.hits++;\n    return it->second;\n  }\n","  if (!(it == table_.end())) {\n    ++stats_.hits;\n    auto found = it->second;\n    return found;\n  }\n")
quiet("strview-eq","    if (s1.len != s2.len) return false;\n    return std::memcmp(s1.s, s2.s, s1.len) == 0;","    return std::string_view(s1.s, s1.len) == std::string_view(s2.s, s2.len);",file=SH)
json.dump(B,open("/tmp/p08.json","w"),indent=1)
