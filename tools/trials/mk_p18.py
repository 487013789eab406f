import json
B=[]
S="spectator/publisher.h"
def bad(name,old,new,file=S,checks="P18",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P18",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("no+1","m.id.GetTags().size() + 1 + common_tags_size","m.id.GetTags().size() + common_tags_size")
bad("nohalf","common_ids.size() / 2;","common_ids.size();")
bad("nocommon","GetTags().size() + 1 + common_tags_size","GetTags().size() + 1")
bad("swapkv","      payload->Append(k_pair->second);\n      payload->Append(v_pair->second);","      payload->Append(v_pair->second);\n      payload->Append(k_pair->second);")
bad("onlykey","      payload->Append(v_pair->second);\n","")
bad("kk","auto v_pair = strings.find(tag.value);\n      assert(k_pair != strings.end());","auto v_pair = strings.find(tag.key);\n      assert(k_pair != strings.end());")
bad("cond-insert","      strings[m.id.Name()] = 0;","      if (m.value > 0) strings[m.id.Name()] = 0;",expect="bad")
bad("noname","      strings[m.id.Name()] = 0;\n","")
bad("nonamekey","    strings[refs().name()] = 0;\n","")
bad("nocommonval","""    for (const auto& tag : common_tags_) {
      strings[tag.key] = 0;
      strings[tag.value] = 0;
""","""    for (const auto& tag : common_tags_) {
      strings[tag.key] = 0;
""")
bad("notagval","""      for (const auto& tag : m.id.GetTags()) {
        strings[tag.key] = 0;
        strings[tag.value] = 0;
""","""      for (const auto& tag : m.id.GetTags()) {
        strings[tag.key] = 0;
""")
bad("idx1","auto idx = 0;","auto idx = 1;")
bad("preinc","kv.second = idx++;","kv.second = ++idx;")
bad("inc2","kv.second = idx++;","kv.second = idx; idx += 2;")
bad("size-1","payload->Append(strings.size());","payload->Append(strings.size() - 1);")
bad("late","""    auto idx = 0;
    for (auto& kv : strings) {
      kv.second = idx++;
    }
""","""    auto idx = 0;
    for (auto& kv : strings) {
      kv.second = idx++;
    }
    strings[refs().statistic()] = idx;
""",expect="bad")
bad("skiplist","""    for (const auto& s : strings) {
      payload->Append(s.first.Get());""","""    for (const auto& s : strings) {
      if (s.first.Get()[0] == '\\0') continue;
      payload->Append(s.first.Get());""")
bad("dedup-number","kv.second = idx++;","if (kv.first == refs().name()) { kv.second = 0; continue; } kv.second = idx++;")
bad("skipfirst","    for (auto it = first; it != last; ++it) {\n      append_measurement(payload, strings","    for (auto it = first + 1; it != last; ++it) {\n      append_measurement(payload, strings")
bad("skipfirst-tab","    for (auto it = first; it != last; ++it) {\n      const auto& m = *it;","    for (auto it = std::next(first); it != last; ++it) {\n      const auto& m = *it;")
bad("noinit","    payload->Init();\n","")
bad("initlate","    payload->Init();\n    auto strings = build_str_table(payload, first, last);","    auto strings = build_str_table(payload, first, last);\n    payload->Init();")
bad("value0","payload->Append(m.value);","payload->Append(0);",expect="bad")
bad("valneg","payload->Append(m.value);","payload->Append(-m.value);")
bad("swapname","    payload->Append(name_idx);\n    payload->Append(name_value_idx);","    payload->Append(name_value_idx);\n    payload->Append(name_idx);")
bad("opafter","    payload->Append(op_num);\n    payload->Append(m.value);","    payload->Append(m.value);\n    payload->Append(op_num);")
bad("skipneg","      append_measurement(payload, strings, common_ids, *it);","      if (it->value < 0) continue;\n      append_measurement(payload, strings, common_ids, *it);")
bad("override","      payload->Append(k_pair->second);","      if (tag.key == refs().statistic()) continue;\n      payload->Append(k_pair->second);")
bad("commonids-dup","ids.emplace_back(val_pair->second);","ids.emplace_back(key_pair->second);")
bad("commonids-1","      ids.emplace_back(val_pair->second);\n","")
bad("commonids-skip","      ids.emplace_back(key_pair->second);","      if (tag.value == refs().statistic()) continue;\n      ids.emplace_back(key_pair->second);")
bad("order","    for (auto i : common_ids) {\n      payload->Append(i);\n    }\n    add_tags","    add_tags",expect="bad")
bad("common-batch","""    for (auto it = first; it != last; ++it) {
      append_measurement""","""    for (auto it = first; it != last && it - first < 1000; ++it) {
      append_measurement""")
bad("erase","    auto idx = 0;","    strings.erase(refs().statistic());\n    auto idx = 0;")
quiet("emplace","      strings[m.id.Name()] = 0;","      strings.emplace(m.id.Name(), 0);")
quiet("idloop","    for (auto i : common_ids) {\n      payload->Append(i);\n    }","    for (size_t j = 0; j < common_ids.size(); ++j) {\n      payload->Append(common_ids[j]);\n    }")
quiet("pre","kv.second = idx++;","kv.second = idx;\n      ++idx;")
quiet("order","m.id.GetTags().size() + 1 + common_tags_size","1 + common_tags_.size() + m.id.GetTags().size()")
quiet("tag-order","    add_tags(payload, strings, m.id.GetTags());\n    auto name_idx = strings.find(refs().name())->second;\n    auto name_value_idx = strings.find(m.id.Name())->second;\n    payload->Append(name_idx);\n    payload->Append(name_value_idx);","    auto name_idx = strings.find(refs().name())->second;\n    auto name_value_idx = strings.find(m.id.Name())->second;\n    payload->Append(name_idx);\n    payload->Append(name_value_idx);\n    add_tags(payload, strings, m.id.GetTags());")
quiet("direct","    for (auto i : common_ids) {\n      payload->Append(i);\n    }","    add_tags(payload, strings, common_tags_);")
quiet("range-first","    for (auto it = first; it != last; ++it) {\n      append_measurement(payload, strings, common_ids, *it);","    auto it = first;\n    while (it != last) {\n      append_measurement(payload, strings, common_ids, *it);\n      ++it;")
quiet("helper","  auto build_str_table(","""  static void intern_tags(StrTable* table, const Tags& tags) {
    for (const auto& tag : tags) {
      (*table)[tag.key] = 0;
      (*table)[tag.value] = 0;
    }
  }

  auto build_str_table(""",edits=[["    for (const auto& tag : common_tags_) {\n      strings[tag.key] = 0;\n      strings[tag.value] = 0;\n    }\n","    intern_tags(&strings, common_tags_);\n"],["      for (const auto& tag : m.id.GetTags()) {\n        strings[tag.key] = 0;\n        strings[tag.value] = 0;\n      }\n","      intern_tags(&strings, m.id.GetTags());\n"]])
quiet("nameids","    auto name_idx = strings.find(refs().name())->second;","    const auto name_key = refs().name();\n    auto name_idx = strings.find(name_key)->second;")
quiet("reserve","    StrTable strings{static_cast<StrTable::size_type>((last - first) * 7)};","    StrTable strings;\n    strings.reserve((last - first) * 7 + 1);")
quiet("listsplit","    payload->Append(strings.size());\n    for (const auto& s : strings) {\n      payload->Append(s.first.Get());\n    }\n    return strings;","    write_table(payload, strings);\n    return strings;",edits=[["  enum class Op {","  void write_table(SmilePayload* p, const StrTable& t) {\n    p->Append(t.size());\n    for (const auto& e : t) {\n      const char* str = e.first.Get();\n      p->Append(str);\n    }\n  }\n\n  enum class Op {"]])
json.dump(B,open('/tmp/p18.json','w'),indent=1)
