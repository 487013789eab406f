import json
B=[]
S="spectator/publisher.h"
def bad(name,old,new,file=S,checks="P20",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P20",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("noobj","body.IsObject() && ","")
bad("nohas","body.HasMember(\"errorCount\") &&\n            ","")
bad("nouint","body[\"errorCount\"].IsUint() &&","true &&")
bad("isint","body[\"errorCount\"].IsUint() &&","body[\"errorCount\"].IsInt() &&")
bad("isnum","body[\"errorCount\"].IsUint() &&","body[\"errorCount\"].IsNumber() &&")
bad("nole"," &&\n            body[\"errorCount\"].GetUint() <= num_measurements) {",") {")
bad("le1","body[\"errorCount\"].GetUint() <= num_measurements","body[\"errorCount\"].GetUint() <= num_measurements + 1")
bad("lt","body[\"errorCount\"].GetUint() <= num_measurements","body[\"errorCount\"].GetUint() < num_measurements")
bad("othermember","auto err_count = body[\"errorCount\"].GetUint();","auto err_count = body[\"errors\"].GetUint();")
bad("isarr","messages != body.MemberEnd() && messages->value.IsArray()","messages != body.MemberEnd()")
bad("noend","messages != body.MemberEnd() && messages->value.IsArray()","messages->value.IsArray()")
bad("isobj2","messages->value.IsArray()","messages->value.IsObject()")
bad("nostr","              if (msg.IsString()) {","              {")
bad("msgidx","auto messages = body.FindMember(\"message\");","auto messages = body.FindMember(\"messages\");", expect="quiet")
bad("errzero","num_err = err_count;","num_err = 0;")
bad("sentn","num_sent = num_measurements - err_count;","num_sent = num_measurements;")
bad("senttwice","invalidMetrics_->Add(err_count);\n            sentMetrics_->Add(static_cast<double>(num_measurements - err_count));","invalidMetrics_->Add(err_count);\n            sentMetrics_->Add(num_measurements);")
bad("noinvalid","            invalidMetrics_->Add(err_count);\n","")
bad("swap","            invalidMetrics_->Add(err_count);","            droppedOther_->Add(err_count);")
bad("guard","          if (status_metrics_enabled) {\n            invalidMetrics_","          {\n            invalidMetrics_")
bad("guard2","      if (status_metrics_enabled) {\n        sentMetrics_->Add(num_measurements);\n      }","      sentMetrics_->Add(num_measurements);")
bad("guard3","      if (status_metrics_enabled) {\n        droppedHttp_->Add(num_measurements);\n      }","      droppedHttp_->Add(num_measurements);")
bad("neg","      if (status_metrics_enabled) {\n        droppedHttp_->Add(num_measurements);\n      }","      if (!status_metrics_enabled) {\n        droppedHttp_->Add(num_measurements);\n      }")
bad("http-other","droppedHttp_->Add(num_measurements);","droppedOther_->Add(num_measurements);")
bad("conn-http","    } else if (http_code == -1) {  // connection error or timeout\n      num_err = num_measurements;\n      if (status_metrics_enabled) {\n        droppedOther_","    } else if (http_code == -1) {  // connection error or timeout\n      num_err = num_measurements;\n      if (status_metrics_enabled) {\n        droppedHttp_")
bad("noconn","    } else if (http_code == -1) {","    } else if (http_code == 0) {")
bad("conncount","    } else if (http_code == -1) {  // connection error or timeout\n      num_err = num_measurements;\n","    } else if (http_code == -1) {\n")
bad("5xxcount","      num_err = num_measurements;\n    }\n    return","    }\n    return")
bad("range400","http_code > 200 && http_code < 500","http_code > 200 && http_code < 400")
bad("range501","http_code > 200 && http_code < 500","http_code > 200 && http_code <= 500")
bad("range300","http_code > 200 && http_code < 500","http_code >= 300 && http_code < 500")
bad("200all","if (http_code == 200) {","if (http_code / 100 == 2) {")
bad("200never","if (http_code == 200) {","if (http_code == 201) {")
bad("200half","      num_sent = num_measurements;\n      if","      num_sent = num_measurements - 1;\n      if")
bad("parse","body.HasParseError()","body.IsNull()", expect="quiet")
bad("parseneg","body.HasParseError()","!body.HasParseError()")
bad("parsesize","http_response.raw_body.size());\n      if","http_response.raw_body.size() - 1);\n      if")
bad("missingnone","            droppedOther_->Add(num_measurements);\n          }\n          num_err = num_measurements;","            droppedOther_->Add(num_measurements);\n          }")
bad("missingcounter","          if (status_metrics_enabled) {\n            droppedOther_->Add(num_measurements);\n          }\n          num_err","          num_err")
bad("parsecounter","            num_measurements;\n          if","x",expect="any") if 0 else None
bad("inc","        droppedHttp_->Add(num_measurements);","        droppedHttp_->Increment();")
bad("tags-swap","Tags{{\"id\", \"dropped\"}, {\"error\", \"http-error\"}}","Tags{{\"id\", \"dropped\"}, {\"error\", \"other\"}}")
bad("tags-sent","Tags{{\"id\", \"sent\"}}","Tags{{\"id\", \"dropped\"}}")
bad("retswap","return std::make_pair(num_sent, num_err);","return std::make_pair(num_err, num_sent);")
bad("once","    for (const auto& resp_pair : responses) {\n","    for (const auto& resp_pair : responses) {\n      if (resp_pair.second.status == 200) continue;\n")
bad("bs","resp_pair.second, resp_pair.first, &err_messages","resp_pair.second, batch_size, &err_messages")
bad("total","resp_pair.second, resp_pair.first, &err_messages","resp_pair.second, measurements.size(), &err_messages")
bad("firstonly","resp_pair.second, resp_pair.first, &err_messages","responses[0].second, resp_pair.first, &err_messages")
bad("early","    if (http_code == 200) {","    if (http_response.raw_body.empty()) {\n      return std::make_pair(num_sent, num_err);\n    }\n    if (http_code == 200) {")
bad("twice","    return std::make_pair(num_sent, num_err);","    if (status_metrics_enabled && num_sent > 0) sentMetrics_->Add(num_sent);\n    return std::make_pair(num_sent, num_err);")
quiet("find","""body.IsObject() && body.HasMember("errorCount") &&
            body["errorCount"].IsUint() &&
            body["errorCount"].GetUint() <= num_measurements) {
          auto err_count = body["errorCount"].GetUint();""","""body.IsObject() && body.FindMember("errorCount") != body.MemberEnd() &&
            body.FindMember("errorCount")->value.IsUint() &&
            body["errorCount"].GetUint() <= num_measurements) {
          const auto& v = body["errorCount"];
          auto err_count = v.GetUint();""")
quiet("helper","""body.IsObject() && body.HasMember("errorCount") &&
            body["errorCount"].IsUint() &&
            body["errorCount"].GetUint() <= num_measurements) {""","""usable(body, num_measurements)) {""",edits=[["  auto handle_aggr_response(","""  static bool usable(const rapidjson::Document& body, size_t max) {
    if (!body.IsObject()) return false;
    auto it = body.FindMember("errorCount");
    if (it == body.MemberEnd() || !it->value.IsUint()) return false;
    return it->value.GetUint() <= max;
  }

  auto handle_aggr_response("""]])
quiet("switch","    } else if (http_code == -1) {  // connection error or timeout\n      num_err = num_measurements;\n      if (status_metrics_enabled) {\n        droppedOther_->Add(num_measurements);\n      }\n    } else {  // 5xx error\n      if (status_metrics_enabled) {\n        droppedHttp_->Add(num_measurements);\n      }\n      num_err = num_measurements;\n    }","    } else {\n      num_err = num_measurements;\n      if (status_metrics_enabled) {\n        auto& dropped = http_code == -1 ? droppedOther_ : droppedHttp_;\n        dropped->Add(num_measurements);\n      }\n    }")
quiet("ordering","      num_sent = num_measurements;\n      if (status_metrics_enabled) {\n        sentMetrics_->Add(num_measurements);\n      }","      if (status_metrics_enabled) {\n        sentMetrics_->Add(num_measurements);\n      }\n      num_sent = num_measurements;")
quiet("drop","    auto http_code = http_response.status;","    auto http_code = http_response.status;\n    auto drop = [&](auto& counter) {\n      if (status_metrics_enabled) counter->Add(num_measurements);\n      num_err = num_measurements;\n    };",edits=[["      num_err = num_measurements;\n      if (status_metrics_enabled) {\n        droppedOther_->Add(num_measurements);\n      }\n    } else {","      drop(droppedOther_);\n    } else {"]])
quiet("brace","return std::make_pair(num_sent, num_err);","return {num_sent, num_err};")
quiet("range","http_code > 200 && http_code < 500","http_code > 200 && http_code <= 499")
quiet("parse1","body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());","const auto& raw = http_response.raw_body;\n      body.Parse(raw.data(), raw.length());")
quiet("msgidx2","for (auto& msg : messages->value.GetArray()) {","const auto& arr = messages->value;\n            for (rapidjson::SizeType i = 0; i < arr.Size(); ++i) {\n              const auto& msg = arr[i];")
quiet("structured","""      std::tie(batch_sent, batch_err) = handle_aggr_response(
          resp_pair.second, resp_pair.first, &err_messages);""","""      const auto& [count, response] = resp_pair;
      std::tie(batch_sent, batch_err) = handle_aggr_response(response, count, &err_messages);""")
quiet("iter","    for (const auto& resp_pair : responses) {\n","    for (size_t i = 0; i < responses.size(); ++i) {\n      const auto& resp_pair = responses[i];\n")
quiet("early200","    if (http_code == 200) {\n      num_sent = num_measurements;\n      if (status_metrics_enabled) {\n        sentMetrics_->Add(num_measurements);\n      }\n    } else if","    if (http_code == 200) {\n      if (status_metrics_enabled) {\n        sentMetrics_->Add(num_measurements);\n      }\n      return std::make_pair(num_measurements, num_err);\n    }\n    if")
quiet("cfg","const auto& status_metrics_enabled = registry_->GetConfig().status_metrics_enabled;","const bool status_metrics_enabled = registry_->GetConfig().status_metrics_enabled;")
quiet("ptr","        sentMetrics_->Add(num_measurements);\n      }\n    } else if","        (*sentMetrics_).Add(static_cast<double>(num_measurements));\n      }\n    } else if")
json.dump(B,open("/tmp/p20.json","w"))
