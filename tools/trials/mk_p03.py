import json
B=[]
S="server/spectatord.cc"
def bad(name,old,new,file=S,checks="P03",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P03",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
BODY=open('/repo/server/spectatord.cc').read()
a=BODY.index("  char* p = buffer;\n  // skip empty lines"); z=BODY.index("  if (err_msg.empty()) {\n    return {};\n  }\n\n  return err_msg;")
OLD=BODY[a:z]
CNT="""    if (maybe_err) {
      if (cfg.status_metrics_enabled) {
        parse_errors_->Increment();
      }
      if (err_msg.empty()) {
        err_msg = *maybe_err;
      } else {
        err_msg += '\\n';
        err_msg += *maybe_err;
      }
    } else if (cfg.status_metrics_enabled) {
      parsed_count_->Increment();
    }
"""
assert CNT in OLD
bad("lastonly","    if (newline == nullptr) {\n      break;","    if (newline == nullptr || maybe_err) {\n      break;")
bad("stoponerr","      if (err_msg.empty()) {\n        err_msg = *maybe_err;","      if (err_msg.empty()) {\n        return maybe_err;")
bad("rchr","std::strchr(p, '\\n')","std::strrchr(p, '\\n')")
bad("nocut","      *newline = '\\0';\n","")
bad("cutlate","    auto maybe_err = parser(p);\n","",edits=[["    if (newline != nullptr) {\n      *newline = '\\0';\n    }\n","    auto maybe_err = parser(p);\n    if (newline != nullptr) {\n      *newline = '\\0';\n    }\n"]])
bad("skip1","    while (*++newline == '\\n') {\n    }\n","    ++newline;\n    while (*++newline == '\\n') {\n    }\n")
bad("skipws","    while (*++newline == '\\n') {","    while (*++newline == '\\n' || *newline == ' ') {")
bad("cr","char* newline = std::strchr(p, '\\n');","char* newline = std::strpbrk(p, \"\\r\\n\");")
bad("semi","char* newline = std::strchr(p, '\\n');","char* newline = std::strchr(p, ';');")
bad("startskip","  while (*p == '\\n') {\n    ++p;","  while (*p != '\\0' && *p <= ' ') {\n    ++p;")
bad("cntboth","    } else if (cfg.status_metrics_enabled) {\n      parsed_count_->Increment();","    }\n    if (cfg.status_metrics_enabled) {\n      parsed_count_->Increment();")
bad("cntswap","parse_errors_->Increment();","parsed_count_->Increment();")
bad("ctorswap",'parsed_count_{registry_->GetCounter("spectatord.parsedCount")}','parsed_count_{registry_->GetCounter("spectatord.parseErrors")}')
bad("cnt2","        parse_errors_->Increment();","        parse_errors_->Add(2);")
bad("cntdis","    } else if (cfg.status_metrics_enabled) {","    } else {")
bad("cntneg","      if (cfg.status_metrics_enabled) {\n        parse_errors_","      if (!cfg.status_metrics_enabled) {\n        parse_errors_")
bad("noerrs","        err_msg += '\\n';\n        err_msg += *maybe_err;","        err_msg += '\\n';")
bad("lasterr","      if (err_msg.empty()) {\n        err_msg = *maybe_err;\n      } else {\n        err_msg += '\\n';\n        err_msg += *maybe_err;\n      }","      err_msg = *maybe_err;")
bad("firsterr","      } else {\n        err_msg += '\\n';\n        err_msg += *maybe_err;\n      }","      }")
bad("resinv","  if (err_msg.empty()) {\n    return {};","  if (!err_msg.empty()) {\n    return {};")
bad("alwayserr","  if (err_msg.empty()) {\n    return {};\n  }\n\n  return err_msg;","  return err_msg;")
bad("noerr","  if (err_msg.empty()) {\n    return {};\n  }\n\n  return err_msg;","  return {};")
bad("twice","    auto maybe_err = parser(p);","    auto maybe_err = parser(p);\n    if (maybe_err) maybe_err = parser(p);")
bad("comment","    auto maybe_err = parser(p);","    if (*p == '#' && newline != nullptr) {\n      p = newline + 1;\n      while (*p == '\\n') ++p;\n      continue;\n    }\n    auto maybe_err = parser(p);")
bad("mid","    auto maybe_err = parser(p);","    auto maybe_err = parser(*p == ' ' ? p + 1 : p);")
bad("lastcut","    if (newline == nullptr) {\n      break;","    if (newline == nullptr || newline[1] == '\\0') {\n      break;", expect="quiet")
bad("brkempty","    if (newline == nullptr) {\n      break;","    if (newline == nullptr || newline[1] == '\\n') {\n      break;")
bad("maxlines","  std::string err_msg;\n  while (*p != '\\0') {","  std::string err_msg;\n  int lines = 0;\n  while (*p != '\\0' && lines++ < 1000) {")
bad("resetp","    p = newline;\n","    p = newline;\n    if (*p == ' ') ++p;\n")
bad("statsdp","return this->parse_statsd(buffer);","return this->parse(buffer);")
bad("localst","std::make_unique<LocalServer>(io_context, *socket_path_, parser)","std::make_unique<LocalServer>(io_context, *socket_path_, [this](char* b) { return this->parse_statsd(b); })")
bad("udpst","  auto parser = [this](char* buffer) { return this->parse(buffer); };","  auto parser = [this](char* buffer) { return this->parse_statsd(buffer); };")
quiet("forloop",OLD,"""  std::string err_msg;
  for (char* line = buffer; *line != '\\0';) {
    if (*line == '\\n') {
      ++line;
      continue;
    }
    char* eol = std::strchr(line, '\\n');
    if (eol != nullptr) *eol = '\\0';
    auto maybe_err = parser(line);
"""+CNT+"""    if (eol == nullptr) break;
    line = eol + 1;
  }
""")
quiet("scan",OLD,"""  std::string err_msg;
  char* p = buffer;
  while (true) {
    while (*p == '\\n') ++p;
    if (*p == '\\0') break;
    char* line = p;
    while (*p != '\\0' && *p != '\\n') ++p;
    const bool last = *p == '\\0';
    *p = '\\0';
    auto maybe_err = parser(line);
"""+CNT+"""    if (last) break;
    ++p;
  }
""")
quiet("helper",CNT,"    note(maybe_err, &err_msg);\n",edits=[["auto Server::parse_lines(char* buffer","void Server::note(const std::optional<std::string>& maybe_err, std::string* errs) {\n  const bool on = registry_->GetConfig().status_metrics_enabled;\n  if (!maybe_err) {\n    if (on) parsed_count_->Increment();\n    return;\n  }\n  if (on) parse_errors_->Increment();\n  if (!errs->empty()) errs->push_back('\\n');\n  errs->append(*maybe_err);\n}\n\nauto Server::parse_lines(char* buffer"],["server/spectatord.h","  void ensure_not_stuck();","  void ensure_not_stuck();\n  void note(const std::optional<std::string>& maybe_err, std::string* errs);"]])
quiet("ctr",CNT,"""    if (cfg.status_metrics_enabled) {
      auto& counter = maybe_err ? parse_errors_ : parsed_count_;
      counter->Add(1);
    }
    if (maybe_err) {
      if (!err_msg.empty()) err_msg += '\\n';
      err_msg += maybe_err.value();
    }
""")
quiet("ptrs","    while (*++newline == '\\n') {\n    }\n    p = newline;\n","    p = newline + 1;\n    while (*p == '\\n') {\n      p++;\n    }\n")
quiet("ret","  if (err_msg.empty()) {\n    return {};\n  }\n\n  return err_msg;","  std::optional<std::string> result;\n  if (!err_msg.empty()) result = std::move(err_msg);\n  return result;")
quiet("lam","  auto parser = [this](char* buffer) { return this->parse(buffer); };","  handler_t parser = [this](char* buffer) -> std::optional<std::string> {\n    auto r = parse(buffer);\n    return r;\n  };")
quiet("bind","  auto parser = [this](char* buffer) { return this->parse(buffer); };","  auto parser = std::bind(&Server::parse, this, std::placeholders::_1);")
bad("first-empty", """  // skip empty lines
  while (*p == '\\n') {
    ++p;
  }
""", "")
bad("one-newline-only", """    while (*++newline == '\\n') {
    }
    p = newline;""", """    p = newline + 1;""")
quiet("skip-in-loop", "    char* newline = std::strchr(p, '\\n');\n", """    if (*p == '\\n') {
      ++p;
      continue;
    }
    char* newline = std::strchr(p, '\\n');
""")
quiet("skip-in-loop-only", "    char* newline = std::strchr(p, '\\n');\n", """    if (*p == '\\n') {
      ++p;
      continue;
    }
    char* newline = std::strchr(p, '\\n');
""", edits=[["""  // skip empty lines
  while (*p == '\\n') {
    ++p;
  }
""", ""], ["""    while (*++newline == '\\n') {
    }
    p = newline;""", """    p = newline + 1;"""]])
quiet("skip-if-own-newline", "    char* newline = std::strchr(p, '\\n');\n", """    char* newline = std::strchr(p, '\\n');
    if (newline == p) {
      ++p;
      continue;
    }
""", edits=[["""    while (*++newline == '\\n') {
    }
    p = newline;""", """    p = newline + 1;"""]])
json.dump(B,open('/tmp/p03.json','w'),indent=1)
