import json
B=[]
S="spectator/registry.cc"
P="spectator/publisher.h"
def bad(name,old,new,file=S,checks="P30",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P30",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
U="""  auto it = config_->common_tags.find(k);
  if (it != config_->common_tags.end()) {
    it->second = v;
  } else {
    config_->common_tags.insert({k, v});
  }
"""
LK="  absl::MutexLock lock(&common_tags_mutex_);\n"
bad("insertonly",U,"  config_->common_tags.insert({k, v});\n")
bad("emplaceonly",U,"  config_->common_tags.emplace(k, v);\n")
bad("setk",U,U.replace("it->second = v;","it->second = k;"))
bad("swapkv",U,U.replace("{k, v}","{v, k}"))
bad("noinsert",U,U.replace("    config_->common_tags.insert({k, v});\n",""))
bad("noset",U,U.replace("    it->second = v;\n",""))
bad("invert",U,U.replace("!=","=="))
bad("clear",U,"  config_->common_tags.clear();\n"+U)
bad("nolockU",LK+"  auto it","  auto it")
bad("nolockE",LK+"  config_->common_tags.erase","  config_->common_tags.erase")
bad("nolockR",LK+"  return config_->common_tags","  return config_->common_tags")
bad("erasecond","  config_->common_tags.erase(k);","  auto it = config_->common_tags.find(k);\n  if (it != config_->common_tags.end() && it->second.empty()) {\n    config_->common_tags.erase(it);\n  }")
bad("eraseclear","  config_->common_tags.erase(k);","  config_->common_tags.clear();")
bad("erasenone","  config_->common_tags.erase(k);","  config_->common_tags.find(k);")
bad("eraseset","  config_->common_tags.erase(k);","  config_->common_tags[k] = \"\";")
bad("readcfg","registry_->CommonTags()","registry_->GetConfig().common_tags",file=P)
bad("readempty","  return config_->common_tags;","  return {};")
R="    // they may have been changed through the admin server\n    refresh_common_tags();\n"
bad("norefresh",R,"",file=P)
bad("late",R,"",file=P,edits=[["    batches_to_do.Wait();\n","    batches_to_do.Wait();\n    refresh_common_tags();\n"]])
bad("bysize",R,"    if (registry_->CommonTags().size() != common_tags_.size()) {\n      refresh_common_tags();\n    }\n",file=P)
bad("append","    Tags tags;\n    for (const auto& kv : registry_->CommonTags()) {\n      tags.add(kv.first, kv.second);\n    }\n    common_tags_ = std::move(tags);","    for (const auto& kv : registry_->CommonTags()) {\n      common_tags_.add(kv.first, kv.second);\n    }",file=P)
bad("kk","tags.add(kv.first, kv.second);","tags.add(kv.first, kv.first);",file=P)
bad("vk","tags.add(kv.first, kv.second);","tags.add(kv.second, kv.first);",file=P)
bad("skip","      tags.add(kv.first, kv.second);","      if (kv.first != \"nf.app\") tags.add(kv.first, kv.second);",file=P)
bad("break","      tags.add(kv.first, kv.second);","      tags.add(kv.first, kv.second);\n      if (tags.size() >= 10) break;",file=P)
bad("noassign","    common_tags_ = std::move(tags);","    if (tags.size() > 0) common_tags_ = std::move(tags);",file=P)
bad("static","    for (const auto& kv : registry_->CommonTags()) {","    static const auto all = registry_->CommonTags();\n    for (const auto& kv : all) {",file=P)
bad("onlyonerefresh",R,"    if (last_successful_send_ == 0) {\n      refresh_common_tags();\n    }\n",file=P)
bad("intask","        measurements_to_json(payload, batch.first, batch.second);","        refresh_common_tags();\n        measurements_to_json(payload, batch.first, batch.second);",file=P)
quiet("op[]",U,"  config_->common_tags[k] = v;\n")
quiet("ioa",U,"  config_->common_tags.insert_or_assign(k, v);\n")
quiet("early",U,U.replace("  } else {\n    config_->common_tags.insert({k, v});\n  }\n","    return;\n  }\n  config_->common_tags.insert({k, v});\n"))
quiet("emplace",U,U.replace("insert({k, v})","emplace(k, v)"))
quiet("ref",U,"  auto& tags = config_->common_tags;\n"+U.replace("config_->common_tags","tags"))
quiet("try",U,"  auto res = config_->common_tags.emplace(k, v);\n  if (!res.second) {\n    res.first->second = v;\n  }\n")
quiet("erasefind","  config_->common_tags.erase(k);","  auto it = config_->common_tags.find(k);\n  if (it != config_->common_tags.end()) {\n    config_->common_tags.erase(it);\n  }")
quiet("copy","  return config_->common_tags;","  auto res = config_->common_tags;\n  return res;")
quiet("local","    for (const auto& kv : registry_->CommonTags()) {","    const auto all = registry_->CommonTags();\n    for (const auto& kv : all) {",file=P)
quiet("bind","    for (const auto& kv : registry_->CommonTags()) {\n      tags.add(kv.first, kv.second);","    for (const auto& [key, value] : registry_->CommonTags()) {\n      tags.add(key, value);",file=P)
quiet("iter","    for (const auto& kv : registry_->CommonTags()) {\n      tags.add(kv.first, kv.second);","    const auto all = registry_->CommonTags();\n    for (auto it = all.begin(); it != all.end(); ++it) {\n      tags.add(it->first, it->second);",file=P)
quiet("inlined",R,"    Tags tags;\n    for (const auto& kv : registry_->CommonTags()) {\n      tags.add(kv.first, kv.second);\n    }\n    common_tags_ = std::move(tags);\n",file=P)
quiet("earlier",R,"",file=P,edits=[["    auto measurements = registry_->Measurements();\n","    refresh_common_tags();\n    auto measurements = registry_->Measurements();\n"]])
quiet("clearadd","    Tags tags;\n    for (const auto& kv : registry_->CommonTags()) {\n      tags.add(kv.first, kv.second);\n    }\n    common_tags_ = std::move(tags);","    common_tags_ = Tags{};\n    for (const auto& kv : registry_->CommonTags()) {\n      common_tags_.add(kv.first, kv.second);\n    }",file=P)
quiet("returns","  void refresh_common_tags() {\n    Tags tags;","  auto read_common_tags() const -> Tags {\n    Tags tags;",file=P,edits=[["    common_tags_ = std::move(tags);\n  }","    return tags;\n  }\n\n  void refresh_common_tags() { common_tags_ = read_common_tags(); }"]])
json.dump(B,open("/tmp/p30.json","w"))
