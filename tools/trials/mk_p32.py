import json
B=[]
PU="server/proc_utils.cc"; F="util/files.h"
def bad(name,old,new,file=PU,checks="P32",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=PU,checks="P32",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("col2","fields[7].c_str()","fields[6].c_str()")
bad("col3","fields[16].c_str()","fields[15].c_str()")
bad("base","fields[7].c_str(), nullptr, 16","fields[7].c_str(), nullptr, 10")
bad("base2","fields[16].c_str(), nullptr, 10","fields[16].c_str(), nullptr, 16")
bad("rport","strtol(fields[2].c_str()","strtol(fields[4].c_str()")
bad("portbase","strtol(fields[2].c_str(), nullptr, 16)","strtol(fields[2].c_str(), nullptr, 10)")
bad("delim",'" :\\n"','" \\n"')
bad("noskip",", absl::SkipEmpty()","")
bad("sz18","fields.size() < 17","fields.size() < 18")
bad("cont","if (port != cur_port) continue;","if (port < cur_port) continue;")
bad("brk","if (fields.size() < 17) continue;","if (fields.size() < 17) break;")
bad("brk2","if (port != cur_port) continue;","if (cur_port > port) break;\n    if (port != cur_port) continue;")
bad("noport","    if (port != cur_port) continue;\n","    if (port != cur_port && cur_port != 0) continue;\n")
bad("zeroq","    return res;\n","    if (res.rx_queue_bytes == 0) continue;\n    return res;\n")
bad("noclose","    close(fd);\n","")
bad("closeif","    close(fd);\n","    if (n > 0) close(fd);\n")
bad("earlyret","        result = kDefault;\n      }\n    }\n    close","        result = kDefault;\n        return result;\n      }\n    }\n    close")
bad("fd0","  if (fd < 0) {","  if (fd <= 0) {") 
bad("dflt","        // unable to parse\n        result = kDefault;\n","        // unable to parse\n")
bad("dflt2","    result = kDefault;\n    char buf","    char buf")
bad("noshut","      std::fclose(fp_);\n","",F)
bad("mv","    other.fp_ = nullptr;\n","",F)
bad("dt","    if (fp_ != nullptr) {\n      std::fclose","    if (fp_ == nullptr) {\n      std::fclose",F)
bad("fopenraw","  StdIoFile udp{proc_file};\n  if (udp == nullptr) return {};","  FILE* udp = fopen(proc_file, \"r\");\n  if (udp == nullptr) return {};",edits=[["    return res;\n","    fclose(udp);\n    return res;\n"]])
quiet("idx","    if (fields.size() < 17) continue;\n    auto cur_port = strtol(fields[2].c_str(), nullptr, 16);\n    if (port != cur_port) continue;\n\n    res.rx_queue_bytes = strtoul(fields[7].c_str(), nullptr, 16);\n    res.num_dropped = strtoul(fields[16].c_str(), nullptr, 10);\n    return res;","    if (fields.size() <= kDrops) continue;\n    if (strtol(fields[kPort].c_str(), nullptr, 16) == port) {\n      const auto queued = strtoul(fields[kQueue].c_str(), nullptr, 16);\n      res.num_dropped = strtoul(fields[kDrops].c_str(), nullptr, 10);\n      res.rx_queue_bytes = queued;\n      return res;\n    }",edits=[["static constexpr int kDefault","static constexpr std::size_t kPort = 2, kQueue = 7, kDrops = 16;\nstatic constexpr int kDefault"]])
quiet("helper","    if (fields.size() < 17) continue;\n    auto cur_port = strtol(fields[2].c_str(), nullptr, 16);\n    if (port != cur_port) continue;\n\n    res.rx_queue_bytes = strtoul(fields[7].c_str(), nullptr, 16);\n    res.num_dropped = strtoul(fields[16].c_str(), nullptr, 10);\n    return res;","    if (matches(fields, port)) return to_info(fields);",edits=[["auto udp_info(int","static auto matches(const std::vector<std::string>& fields, int port) -> bool {\n  return fields.size() >= 17 && strtol(fields[2].c_str(), nullptr, 16) == port;\n}\nstatic auto to_info(const std::vector<std::string>& fields) -> udp_info_t {\n  udp_info_t r{};\n  r.rx_queue_bytes = strtoul(fields[7].c_str(), nullptr, 16);\n  r.num_dropped = strtoul(fields[16].c_str(), nullptr, 10);\n  return r;\n}\nauto udp_info(int"],["  udp_info_t res{};\n",""]])
quiet("views","    std::vector<std::string> fields =\n        absl::StrSplit(line, absl::ByAnyChar(\" :\\n\"), absl::SkipEmpty());","    const std::vector<std::string> fields =\n        absl::StrSplit(line, absl::ByAnyChar(\"\\n: \"), absl::SkipEmpty());")
quiet("uptr","  StdIoFile udp{proc_file};\n  if (udp == nullptr) return {};","  std::unique_ptr<FILE, int (*)(FILE*)> owner(fopen(proc_file, \"r\"), fclose);\n  if (owner == nullptr) return {};\n  FILE* udp = owner.get();",edits=[["#include <fcntl.h>","#include <fcntl.h>\n#include <memory>"]])
quiet("dowh","  while (fgets(line, sizeof line, udp) != nullptr) {","  for (;;) {\n    if (fgets(line, sizeof line, udp) == nullptr) break;")
quiet("ret","  if (fd < 0) {\n    result = kDefault;\n  } else {\n    result = kDefault;\n    char","  result = kDefault;\n  if (fd >= 0) {\n    char")
quiet("dtor","    if (fp_ != nullptr) {\n      std::fclose(fp_);\n      fp_ = nullptr;\n    }","    if (!fp_) return;\n    std::fclose(fp_);",F)
quiet("sw","  StdIoFile(StdIoFile&& other) noexcept : fp_(other.fp_) {\n    other.fp_ = nullptr;\n  }","  StdIoFile(StdIoFile&& other) noexcept : fp_(nullptr) {\n    std::swap(fp_, other.fp_);\n  }",F,edits=[["#include <cstdio>","#include <cstdio>\n#include <utility>"]])
B=[b for b in B if b]

bad("elem-early", """    if (fields.size() < 17) continue;
    auto cur_port = strtol(fields[2].c_str(), nullptr, 16);
""", """    auto cur_port = strtol(fields[2].c_str(), nullptr, 16);
    if (fields.size() < 17) continue;
""")
bad("elem-16", "fields.size() < 17", "fields.size() < 16")
bad("elem-le16", "fields.size() < 17", "fields.size() <= 15")
bad("elem-empty", "if (fields.size() < 17) continue;", "if (fields.empty()) continue;")
quiet("elem-gt16", "if (fields.size() < 17) continue;", "if (!(fields.size() > 16)) continue;")
quiet("elem-at", "fields[16]", "fields.at(16)")
quiet("elem-named", "if (fields.size() < 17) continue;", "constexpr size_t kDrops = 16;\n    if (fields.size() <= kDrops) continue;")
json.dump(B,open("/tmp/p32.json","w"))
