import json
B=[]
S="spectator/registry.cc"
H="spectator/registry.h"
def bad(name,old,new,file=S,checks="P29",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P29 P10",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
G="    if (meters_.size() >= limit) {\n      return nullptr;\n    }\n"
bad("gt",G,G.replace(">=",">"),file=H)
bad("minus",G,G.replace(">= limit",">= limit - 1"),file=H)
bad("plus1",G,G.replace("meters_.size()","meters_.size() + 1"),file=H)
bad("nolimit",G,"",file=H)
bad("noknown","  auto known = all_meters_.age_gauges_.get(id);\n  if (known) {\n    return known;\n  } else {","  {",edits=[[H,"    auto it = meters_.find(id);\n    if (it != meters_.end()) {\n      return it->second;\n    }\n    if (meters_.size()","    if (meters_.size()"]])
old="""    auto inserted = all_meters_.insert_age_gauge(id, config_->age_gauge_limit);
    if (inserted) {
      return inserted;
    } else {"""
bad("race",old,"""    if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
      return all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(id));
    } else {""")
bad("race2",old,"""    if (all_meters_.age_gauges_.get_ids().size() < config_->age_gauge_limit) {
      return all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(id));
    } else {""",expect="bad")
bad("total",old,"""    if (all_meters_.size() < config_->age_gauge_limit) {
      return all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(id));
    } else {""")
bad("gauges",old,"""    if (all_meters_.gauges_.size() < config_->age_gauge_limit) {
      return all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(id));
    } else {""")
bad("batch","insert_age_gauge(id, config_->age_gauge_limit)","insert_age_gauge(id, config_->batch_size)")
bad("regbeyond","      return std::make_shared<AgeGauge>(std::move(id));","      return all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)));")
bad("null","      return std::make_shared<AgeGauge>(std::move(id));","      return nullptr;")
bad("warn","        age_gauge_first_warn_ = false;","        age_gauge_first_warn_ = false;\n        return all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(id));")
bad("firstfree",old,"    auto inserted = all_meters_.insert_age_gauge(id, config_->age_gauge_limit + (age_gauge_first_warn_ ? 1 : 0));\n    if (inserted) {\n      return inserted;\n    } else {",expect="bad")
bad("unreg",old,"    if (config_->age_gauge_limit == 0) {\n      return std::make_shared<AgeGauge>(id);\n    }\n"+old,expect="quiet")
bad("named","auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept\n    -> std::shared_ptr<AgeGauge> {\n  return GetAgeGauge(","auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept\n    -> std::shared_ptr<AgeGauge> {\n  return all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(",edits=[["GetAgeGauge(","GetAgeGauge("]] )
B[-1]["new"]="auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept\n    -> std::shared_ptr<AgeGauge> {\n  auto named = all_meters_.age_gauges_.insert(std::make_shared<AgeGauge>(Id::Of(name, tags)));\n  if (named) return named;\n  return GetAgeGauge("; B[-1]["edits"]=[]
bad("nokeep","    if (it != meters_.end()) {\n      return it->second;\n    }\n    if (meters_.size() >= limit","    if (it != meters_.end() && meters_.size() < limit) {\n      return it->second;\n    }\n    if (meters_.size() >= limit",file=H,edits=[[S,"  auto known = all_meters_.age_gauges_.get(id);\n  if (known) {\n    return known;\n  } else {","  {"]])
quiet("noget","  auto known = all_meters_.age_gauges_.get(id);\n  if (known) {\n    return known;\n  } else {","  {")
quiet("flip",G,"    if (limit <= meters_.size()) {\n      return nullptr;\n    }\n",file=H)
quiet("nest",G+"    meters_.emplace(id, meter);\n    return meter;","    if (meters_.size() < limit) {\n      meters_.emplace(id, meter);\n      return meter;\n    }\n    return nullptr;",file=H)
quiet("try",G+"    meters_.emplace(id, meter);\n    return meter;",G+"    return meters_.emplace(id, meter).first->second;",file=H)
quiet("invert","    if (inserted) {\n      return inserted;\n    } else {","    if (inserted != nullptr) {\n      return inserted;\n    }\n    {")
quiet("warnhelper","      if (age_gauge_first_warn_) {","      const bool first = age_gauge_first_warn_;\n      if (first) {")
quiet("made",old,"    auto gauge = std::make_shared<AgeGauge>(id);\n    auto inserted = all_meters_.age_gauges_.insert(gauge, config_->age_gauge_limit);\n    if (inserted) {\n      return inserted;\n    } else {",edits=[["      return std::make_shared<AgeGauge>(std::move(id));","      return gauge;"]])
quiet("local","insert_age_gauge(id, config_->age_gauge_limit)","insert_age_gauge(id, GetConfig().age_gauge_limit)")
json.dump(B,open("/tmp/p29.json","w"))
