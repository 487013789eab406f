import json
B=[]
S="admin/admin_server.cc"
R="spectator/registry.cc"
M="spectator/registry.h"
H="admin/admin_server.h"
def bad(name,old,new,file=S,checks="P23",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P23 P24",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
POST='''    if (localhost_found) {
      POST_config_common_tags(req, res, this->logger, this->allowed_tags, this->registry);
    } else {
      this->logger->error("AdminServer endpoint may only be accessed from localhost method={} uri={} ", req.getMethod(), req.getURI());
      res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
      res.setReason("Bad Request");
      res.send();
    }
'''
bad("post-open",POST,"    POST_config_common_tags(req, res, this->logger, this->allowed_tags, this->registry);\n")
def dele(k): return '''    if (localhost_found) {
      DELETE_metrics("%s", req, res, this->logger, this->registry);
    } else {'''%k
bad("del-open",dele("A"),dele("A").replace("localhost_found","localhost_found || req.getURI() == \"/metrics/A\""))
bad("del-openg",dele("g"),dele("g").replace("localhost_found","!req.getHost().empty()"))
bad("del-kind",dele("g"),dele("g").replace('"g"','"A"'))
bad("method-any",'req.getURI().rfind("/metrics/A", 0) == 0  && req.getMethod() == "DELETE"','req.getURI().rfind("/metrics/A", 0) == 0  && req.getMethod() != "GET"')
bad("method-put",'req.getURI() == "/config/common_tags" && req.getMethod() == "POST"','req.getURI() == "/config/common_tags" && (req.getMethod() == "POST" || req.getMethod() == "PUT")')
bad("uri-prefix",'req.getURI() == "/config/common_tags" && req.getMethod() == "POST"','req.getURI().rfind("/config/common_tags", 0) == 0 && req.getMethod() == "POST"')
bad("uri-prefix2",'req.getURI() == "/config/common_tags" && req.getMethod() == "POST"','req.getURI().rfind("/config", 0) == 0 && req.getMethod() == "POST"')
bad("del-short",'req.getURI().rfind("/metrics/g", 0) == 0','req.getURI().rfind("/metrics/", 0) == 0')
bad("host-prefix","host.rfind(name + \":\", 0) == 0","host.rfind(name, 0) == 0")
bad("host-find","host.rfind(name + \":\", 0) == 0","host.find(name) != std::string::npos")
bad("host-noport","host == name || host.rfind(name + \":\", 0) == 0","host == name")
bad("host-any",'{"localhost", "127.0.0.1", "[::1]"}','{"localhost", "127.0.0.1", "[::1]", "0.0.0.0"}')
bad("host-less",'{"localhost", "127.0.0.1", "[::1]"}','{"localhost", "127.0.0.1"}')
bad("host-bare",'{"localhost", "127.0.0.1", "[::1]"}','{"localhost", "127.0.0.1", "[::"}')
ALLOW='''    if (std::find(allowed_tags.begin(), allowed_tags.end(), it.first) == allowed_tags.end()) {
      res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
      res.setReason("Bad Request");
      res.setContentType("application/json");
      res.send() << R"({"message": "only allowed tags may be set"})";
      return;
    }
'''
TYPE='''    if (it.second.type() != typeid(std::string)) {
      res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
      res.setReason("Bad Request");
      res.setContentType("application/json");
      res.send() << R"({"message": "tag values must be strings"})";
      return;
    }
'''
APPLY='''    auto second = it.second.extract<std::string>();
    if (second.empty()) {
      logger->info("delete common tag {}", it.first);
      registry.EraseCommonTag(it.first);
    } else {
      logger->info("update common tag {}={}", it.first, second);
      registry.UpdateCommonTag(it.first, second);
    }
'''
JOIN='''  }

  for (auto & it : *object) {
'''
bad("no-allow",ALLOW,"",)
bad("no-type",TYPE,"",checks="P23 P24")
bad("interleaved",TYPE+JOIN,TYPE)
bad("allow-skip",ALLOW,ALLOW.replace(" == allowed_tags.end()"," == allowed_tags.end() && !it.second.isEmpty()"))
bad("allow-erase",ALLOW,ALLOW.replace(" == allowed_tags.end()"," == allowed_tags.end() && it.second.type() != typeid(std::string)"))
bad("allow-neg",ALLOW,ALLOW.replace(" == allowed_tags.end()"," != allowed_tags.end()"))
bad("allow-val",ALLOW,ALLOW.replace("it.first","it.second.toString()"))
bad("break-valid",TYPE,TYPE+"    break;\n")
bad("apply-first",APPLY,APPLY+"    break;\n")
bad("apply-skip",APPLY,APPLY.replace("    if (second.empty()) {","    if (second == it.first) continue;\n    if (second.empty()) {"))
bad("apply-swap",APPLY,APPLY.replace("second.empty()","!second.empty()"))
bad("apply-noerase",APPLY,APPLY.replace("      registry.EraseCommonTag(it.first);\n",""))
bad("apply-noupdate",APPLY,APPLY.replace("      registry.UpdateCommonTag(it.first, second);\n",""))
bad("apply-both",APPLY,APPLY.replace("    } else {","      registry.UpdateCommonTag(it.first, second);\n    } else {"))
bad("apply-first-val",APPLY,APPLY.replace("UpdateCommonTag(it.first, second)","UpdateCommonTag(it.first, it.first)"))
bad("apply-swapargs",APPLY,APPLY.replace("UpdateCommonTag(it.first, second)","UpdateCommonTag(second, it.first)"))
bad("apply-always",APPLY,'''    registry.UpdateCommonTag(it.first, it.second.extract<std::string>());
''')
bad("early-apply","  for (auto & it : *object) {\n    if (std::find","  for (auto & it : *object) {\n    if (it.second.type() == typeid(std::string) && it.second.extract<std::string>().empty()) { registry.EraseCommonTag(it.first); continue; }\n    if (std::find")
bad("allowed-more",'      "mantisUser",\n','      "mantisUser",\n      "nf.app",\n',file=H)
bad("allowed-less",'      "mantisUser",\n','',file=H)
bad("del-type",'''  if (type == "A") {
    return all_meters_.age_gauges_.remove_one(id);''','''  if (type == "A") {
    return all_meters_.gauges_.remove_one(id);''',file=R)
bad("del-g",'''    return all_meters_.gauges_.remove_one(id);''','''    return all_meters_.max_gauges_.remove_one(id);''',file=R)
bad("del-all",'''    all_meters_.gauges_.remove_all();''','''    all_meters_.gauges_.remove_all();
    all_meters_.max_gauges_.remove_all();''',file=R)
bad("del-fall",'''  } else if (type == "g") {
    all_meters_.gauges_.remove_all();
  }''','''  } else {
    all_meters_.gauges_.remove_all();
  }''',file=R)
bad("del-one-all",'''    return all_meters_.age_gauges_.remove_one(id);''','''    all_meters_.age_gauges_.remove_all();
    return true;''',file=R)
bad("del-true","return meters_.erase(id) > 0;","meters_.erase(id);\n    return true;",file=M)
bad("del-gt1","return meters_.erase(id) > 0;","return meters_.erase(id) > 1;",file=M)
bad("del-size","req.getURI().size() == 10","req.getURI().size() <= 11",)
bad("del-slash","} else if (req.getURI()[10] != '/') {","} else if (req.getURI()[9] == '/') {")
bad("del-sub","req.getURI().substr(11)","req.getURI().substr(10)")
bad("id-key","auto key = id_str.substr(pos, k_pos - pos);","auto key = id_str.substr(pos, k_pos - pos + 1);")
bad("id-val","tags.add(key, id_str.substr(k_pos, v_pos - k_pos));","tags.add(key, id_str.substr(k_pos, v_pos - k_pos - 1));")
bad("id-last","tags.add(key, id_str.substr(k_pos, id_str.length() - k_pos));\n","")
bad("id-skip","      pos = v_pos;\n","      pos = v_pos + 1;\n")
bad("id-name","auto name = id_str.substr(0, pos);","auto name = id_str.substr(0, pos + 1);")
bad("id-eq","auto v_pos = id_str.find_first_of(',', k_pos);","auto v_pos = id_str.find_first_of('=', k_pos);")
bad("get-measure","meter->set(\"value\", fmt::format(\"{}\", it->Count()));","spectator::Measurements ms; it->Measure(&ms);\n    meter->set(\"value\", fmt::format(\"{}\", it->Count()));")
bad("get-counter","void GET_metrics(HTTPServerRequest& req, HTTPServerResponse& res, spectator::Registry& registry) {\n","void GET_metrics(HTTPServerRequest& req, HTTPServerResponse& res, spectator::Registry& registry) {\n  registry.GetCounter(\"admin.requests\")->Increment();\n")
bad("get-expire","void GET_config(HTTPServerRequest& req, HTTPServerResponse& res,\n                const spectator::Registry& registry) {\n","void GET_config(HTTPServerRequest& req, HTTPServerResponse& res,\n                spectator::Registry& registry) {\n  registry.EraseCommonTag(\"mantisUser\");\n")
# behaviour-preserving
quiet("vars","  if (req.getURI() == \"/\" &&","  const auto& uri = req.getURI();\n  const std::string method = req.getMethod();\n  if (uri == \"/\" && method == \"GET\" &&")
quiet("helper",POST,"    if (!localhost_found) {\n      reject(req, res);\n      return;\n    }\n    POST_config_common_tags(req, res, this->logger, this->allowed_tags, this->registry);\n",edits=[["void RequestHandler::handleRequest","static void reject(HTTPServerRequest& req, HTTPServerResponse& res) {\n  res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);\n  res.setReason(\"Bad Request\");\n  res.send();\n}\n\nvoid RequestHandler::handleRequest"]])
quiet("setboth",'''      res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
      res.setReason("Bad Request");
      res.send();
    }
  } else if (req.getURI() == "/metrics" ''','''      res.setStatusAndReason(HTTPResponse::HTTP_BAD_REQUEST, "Bad Request");
      res.send();
    }
  } else if (req.getURI() == "/metrics" ''')
quiet("hostloop",'''  for (const std::string name : {"localhost", "127.0.0.1", "[::1]"}) {
    if (host == name || host.rfind(name + ":", 0) == 0) {
      return true;
    }
  }
  return false;
''','''  return host == "localhost" || host.rfind("localhost:", 0) == 0 || host == "127.0.0.1" ||
         host.compare(0, 10, "127.0.0.1:") == 0 || host == "[::1]" || host.substr(0, 6) == "[::1]:";
''')
quiet("hostneg","    if (host == name || host.rfind(name + \":\", 0) == 0) {\n      return true;\n    }\n","    if (host != name && host.find(name + \":\") != 0) {\n      continue;\n    }\n    return true;\n")
quiet("isString","it.second.type() != typeid(std::string)","!it.second.isString()")
quiet("count-allow","std::find(allowed_tags.begin(), allowed_tags.end(), it.first) == allowed_tags.end()","std::count(allowed_tags.begin(), allowed_tags.end(), it.first) == 0")
quiet("swap-checks",ALLOW+TYPE,TYPE+ALLOW)
quiet("validate-fn",ALLOW+TYPE,'''    const char* problem = check_tag(allowed_tags, it.first, it.second);
    if (problem != nullptr) {
      res.setStatus(HTTPResponse::HTTP_BAD_REQUEST);
      res.setReason("Bad Request");
      res.setContentType("application/json");
      res.send() << problem;
      return;
    }
''',edits=[["void POST_config_common_tags(",'''static const char* check_tag(const std::vector<std::string>& allowed_tags, const std::string& key, const Var& value) {
  if (std::find(allowed_tags.begin(), allowed_tags.end(), key) == allowed_tags.end()) {
    return R"({"message": "only allowed tags may be set"})";
  }
  if (value.type() != typeid(std::string)) {
    return R"({"message": "tag values must be strings"})";
  }
  return nullptr;
}

void POST_config_common_tags('''],[]][:1])
quiet("anyof",ALLOW,ALLOW.replace("std::find(allowed_tags.begin(), allowed_tags.end(), it.first) == allowed_tags.end()","std::none_of(allowed_tags.begin(), allowed_tags.end(), [&it](const std::string& t) { return t == it.first; })"))
quiet("iterloop","  for (auto & it : *object) {\n    auto second = it.second.extract<std::string>();","  for (auto i = object->begin(); i != object->end(); ++i) {\n    auto& it = *i;\n    auto second = it.second.extract<std::string>();")
quiet("ternary",APPLY,'''    const auto second = it.second.extract<std::string>();
    second.size() > 0 ? registry.UpdateCommonTag(it.first, second) : registry.EraseCommonTag(it.first);
''')
quiet("bindings",APPLY,APPLY,edits=[["  for (auto & it : *object) {\n    auto second = it.second.extract<std::string>();","  for (auto& [k, v] : *object) {\n    auto second = v.extract<std::string>();"],["registry.EraseCommonTag(it.first)","registry.EraseCommonTag(k)"],["registry.UpdateCommonTag(it.first, second)","registry.UpdateCommonTag(k, second)"],["logger->info(\"delete common tag {}\", it.first);",""],["logger->info(\"update common tag {}={}\", it.first, second);",""]])
quiet("del-early",'''  if (req.getURI().size() == 10) {''','''  const std::string uri = req.getURI();
  if (uri.length() == 10) {''')
quiet("del-order",'''  if (type == "A") {
    return all_meters_.age_gauges_.remove_one(id);
  } else if (type == "g") {
    return all_meters_.gauges_.remove_one(id);
  }
  return false;''','''  bool found = false;
  if (type == "g") {
    found = all_meters_.gauges_.remove_one(id);
  }
  if (type == "A") {
    found = all_meters_.age_gauges_.remove_one(id);
  }
  return found;''',file=R)
quiet("del-ne","return meters_.erase(id) > 0;","return meters_.erase(id) != 0;",file=M)
quiet("del-find","return meters_.erase(id) > 0;","auto it = meters_.find(id);\n    if (it == meters_.end()) return false;\n    meters_.erase(it);\n    return true;",file=M)
quiet("id-while","    while (pos != std::string_view::npos) {\n      ++pos;\n      auto k_pos = id_str.find('=', pos);","    for (; pos != std::string_view::npos;) {\n      const auto from = pos + 1;\n      pos = from;\n      auto k_pos = id_str.find('=', from);")
quiet("id-find","id_str.find_first_of(',');","id_str.find(',');")
quiet("switch-order",'''  if (req.getURI() == "/" && req.getMethod() == "GET") {
    // describe admin service
    GET_root(req, res);
  } else if (req.getURI() == "/config" && req.getMethod() == "GET") {
    // get the full spectator configuration
    GET_config(req, res, this->registry);
  } else''','''  if (req.getMethod() == "GET" && req.getURI() == "/config") {
    // get the full spectator configuration
    GET_config(req, res, this->registry);
  } else if (req.getMethod() == "GET" && req.getURI() == "/") {
    // describe admin service
    GET_root(req, res);
  } else''')
quiet("poco-method",'req.getMethod() == "POST"','req.getMethod() == HTTPRequest::HTTP_POST')
for b in B:
    pass
bad("id-found-break","      if (k_pos == std::string_view::npos) break;","      if (k_pos != std::string_view::npos) break;")
json.dump(B,open("/tmp/p23.json","w"))
